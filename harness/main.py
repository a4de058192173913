import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Ctx, MachineryError, NonConforming

CHECKS = {  # property -> (module, function)
    "C01": ("chk_adequacy", "c01"), "C02": ("chk_adequacy", "c02"), "C03": ("chk_adequacy", "c03"),
    "C04": ("chk_adequacy", "c04"), "C05": ("chk_adequacy", "c05"), "C06": ("chk_pool", "c06"),
    "C07": ("chk_adequacy", "c07"), "C08": ("chk_numeric", "c08"), "C09": ("chk_build", "c09"),
    "C10": ("chk_build", "c10"), "C11": ("chk_json", "c11"), "C12": ("chk_json", "c12"),
    "C13": ("chk_remote", "c13"), "C14": ("chk_analyzer", "c14"), "C15": ("chk_analyzer", "c15"),
    "C16": ("chk_analyzer", "c16"), "C17": ("chk_analyzer", "c17"), "C18": ("chk_analyzer", "c18"),
    "C19": ("chk_pipeline", "c19"), "C20": ("chk_pipeline", "c20"), "C21": ("chk_fault", "c21"),
    "C22": ("chk_shuffler", "c22"), "C23": ("chk_viewer", "c23"), "C24": ("chk_viewer", "c24"), "C25": ("chk_clock", "c25"), "C26": ("chk_isolation", "c26"),
}

def main():
    prop = sys.argv[1]
    ctx = Ctx(prop)
    try:
        mod, fn = CHECKS[prop]
        getattr(importlib.import_module(mod), fn)(ctx)
        if ctx.weak and not ctx.fails: raise MachineryError(ctx.weak)
        return ctx.finish()
    except NonConforming:
        return ctx.finish()
    except MachineryError as e:
        if ctx.fails: return ctx.finish()        # what was established before stands
        print("MACHINERY ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.cleanup()

if __name__ == "__main__":
    sys.exit(main())
