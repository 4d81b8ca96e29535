"""Nothing needs building: checks that both interpreters and the code under test can be imported."""
import os, subprocess, sys
sys.dont_write_bytecode = True
import hypothesis
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import driver
w = driver.Worker()
w.close()
print("ready: hypothesis %s, worker %s" % (hypothesis.__version__, driver.PYPY))
