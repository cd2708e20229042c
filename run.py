"""Usage: run.py <property id> [quick|thorough]: decides one property; see DESIGN.md."""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
for p in ("harness", "checks"):
    sys.path.insert(0, os.path.join(HERE, p))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import importlib
import logging
import env, report, tlc  # noqa
logging.getLogger("pysqlsync").addHandler(logging.NullHandler())

WHERE = {"C01": "ddl_checks", "C02": "ddl_checks", "C03": "ddl_checks", "C04": "ddl_checks", "C05": "ddl_checks", "C06": "ddl_checks",
         "C11": "data_checks", "C12": "data_checks", "C13": "data_checks", "C15": "data_checks"}


def main():
    prop = sys.argv[1]
    try:
        m = importlib.import_module(WHERE.get(prop, prop.lower()))
        ck = m.main(prop)
        return ck.finish()
    except tlc.MachineryError as e:
        print("MACHINERY-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception as e:
        traceback.print_exc()
        if report.raised_in_repo(e):
            ck = report.Check(prop, "model_checking")
            ck.violation("the code under test fails: " + report.describe(e), traceback.format_exc())
            return ck.finish()
        print("MACHINERY-ERROR property=%s %s" % (prop, report.describe(e)))
        return 2


if __name__ == "__main__":
    sys.exit(main())
