# -*- coding: utf-8 -*-
"""Runs cases against the library (Jython) and records what it does.

usage: jython driver.py LIBDIR CASES.jsonl OUT.jsonl SCRATCH TIMEOUT

Every line of CASES is one case {id, kind, ...}; the line written to OUT is the case with its observations.
Nothing is judged here: the specification does that.
"""
import sys, os, json, time, threading, traceback

lib, cases_file, out_file, SCRATCH, TIMEOUT = sys.argv[1:6]
TIMEOUT = float(TIMEOUT)
sys.path.insert(0, lib)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(2000)

import common
import kinds

def run(case):
    try:
        return kinds.RUN[case['kind']](case, SCRATCH)
    except BaseException as e:
        case['crash'] = '%s: %s' % (type(e).__name__, ''.join(traceback.format_exc())[-1500:])
        return case
    except:
        case['crash'] = 'java: %s' % (sys.exc_info()[1],)
        return case

class Worker(threading.Thread):
    def __init__(self):
        threading.Thread.__init__(self)
        self.setDaemon(True)
        self.cv = threading.Condition()
        self.job = None
        self.res = None
        self.start()
    def run(self):
        while True:
            self.cv.acquire()
            while self.job is None:
                self.cv.wait()
            job = self.job
            self.cv.release()
            r = run(job)
            self.cv.acquire()
            self.job = None
            self.res = r
            self.cv.notifyAll()
            self.cv.release()
    def do(self, case, timeout):
        self.cv.acquire()
        self.res = None
        self.job = case
        self.cv.notifyAll()
        end = time.time() + timeout
        while self.res is None and time.time() < end:
            self.cv.wait(max(0.01, end - time.time()))
        r = self.res
        self.cv.release()
        return r

w = Worker()
hangs = 0
out = open(out_file, 'w')
for line in open(cases_file):
    case = json.loads(line)
    if hangs >= 3:
        case['skipped'] = True
        out.write(json.dumps(case) + '\n')
        continue
    partial = common.begin(case)
    r = w.do(case, TIMEOUT)
    if r is None:
        hangs += 1
        r = common.hang(json.loads(line))
        w = Worker()
    out.write(json.dumps(r) + '\n')
out.close()
sys.stdout.flush()
os._exit(0)
