/* nothing is a stub: only declarations are used */
