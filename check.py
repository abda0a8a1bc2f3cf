#!/usr/bin/env python3
import os
import sys
import threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.setrecursionlimit(50000)
threading.stack_size(512 * 1024 * 1024)


def go():
    import chk
    global rc
    rc = chk.main(sys.argv)


rc = 2
t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc)
