"""python3 /verif/sa/run.py <property> [--tier quick|thorough] [-v] [--task substring]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading

threading.stack_size(512 * 1024 * 1024)
import frame
import allchecks

if __name__ == "__main__":
    rc = []
    t = threading.Thread(target=lambda: rc.append(frame.main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 3)
