import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if __name__ == "__main__":
    prop = sys.argv[1].upper()
    from mc import engine
    try:
        mod = importlib.import_module("mc." + prop.lower())
    except Exception:
        # the code under test cannot even be imported
        import traceback
        tb = traceback.format_exc()

        class mod:
            PROP = prop

            @staticmethod
            def cases(tier):
                raise RuntimeError("import failed:\n" + tb)
    sys.exit(engine.main(mod, sys.argv[2:]))
