import sys
import core, props
if len(sys.argv) < 2 or not hasattr(props, sys.argv[1]):
    print("usage: check <property> [--thorough]"); sys.exit(2)
core.main(getattr(props, sys.argv[1]), sys.argv[1], props.LEVEL.get(sys.argv[1], "model_checking") if hasattr(props, "LEVEL") else "model_checking")
