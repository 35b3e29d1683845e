import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bind
import runner
if __name__ == "__main__":
    runner.main("C11", bind.analyse("C11"), bind.RULE)
