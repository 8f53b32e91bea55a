"""Child process: execute driver jobs against the code in /repo; usage: drive.py IN.json OUT.jsonl
One line per finished job, so that a job that kills the process can be told from those before it."""
import importlib
import json
import signal
import sys
import traceback


class JobTimeout(BaseException):
    pass


def alarm(sig, frame):
    raise JobTimeout('job did not finish in time')


def main():
    jobs = json.load(open(sys.argv[1]))
    signal.signal(signal.SIGALRM, alarm)
    with open(sys.argv[2], 'w') as f:
        for j in jobs:
            try:
                mod = importlib.import_module(j['mod'])
                signal.alarm(int(j.get('timeout', 60)))
                out = getattr(mod, j['fn'])(j['arg'])
            except BaseException as ex:
                out = dict(error='%s: %s' % (type(ex).__name__, str(ex)[:300]), where=traceback.format_exc()[-2500:],
                           runs=[])
            finally:
                signal.alarm(0)
            f.write(json.dumps(out) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
