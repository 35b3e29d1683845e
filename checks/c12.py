import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bind
import runner
if __name__ == "__main__":
    runner.main("C12", bind.analyse("C12"), bind.RULE)
