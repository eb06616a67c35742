#!/usr/bin/env python3
"""check.py <property>: decide one property (VERIF_TIER=quick|thorough, VERIF_SEED)."""
import os, sys, tempfile, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, registry
def main():
    pid = sys.argv[1]
    fn = registry.CHECKS[pid]
    chk = vlib.Check(pid)
    try:
        fn(chk)
    except vlib.ToolError as e:
        if chk.violations:      # what was found before stands
            chk.finish()
        print("TOOL ERROR:", e, flush=True)
        sys.exit(2)
    except SystemExit:
        raise
    except (OSError, MemoryError) as e:
        traceback.print_exc()
        if not (isinstance(e, FileNotFoundError) and str(e.filename).startswith(tempfile.gettempdir())): sys.exit(2)
        chk.violation(f"a file the code should have left is missing: {e}", dict(trace=traceback.format_exc()))
    except vlib.Misbehaved as e:
        chk.violation(str(e)[:3000], dict(error=str(e)))
    except Exception as e:          # on the unchanged tree, every output has the expected shape
        traceback.print_exc()
        chk.violation(f"the output of the code cannot be understood: {type(e).__name__}: {e}", dict(trace=traceback.format_exc()))
    chk.finish()
main()
