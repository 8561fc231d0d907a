#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's working tree (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
sys.dont_write_bytecode = True
import common

def main():
    prop = sys.argv[1]
    n = int(prop[1:])
    if n <= 8:
        import lang as m
    elif n <= 14:
        import plug as m
    elif n <= 20 or n == 27:
        import proj as m
    else:
        import lsp as m
    try:
        return m.check(prop)
    except common.ToolError as e:
        print("ERROR", prop, e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        common.cleanup()

sys.exit(main())
