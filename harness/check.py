"""python check.py Cnn : decide property Cnn on /repo's working tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf  # noqa: E402


def main(prop):
    ctx = vf.Ctx(prop)
    try:
        try:
            vf.check_repo()
        except vf.MachineryError:
            raise
        except Exception as e:
            # the package cannot even be imported: nothing the property promises holds
            print("petrofit cannot be imported: %r" % e)
            return 2
        import matplotlib

        matplotlib.use("Agg")
        mod = importlib.import_module(prop.lower())
        mod.run(ctx)
        return ctx.finish()
    except vf.MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
