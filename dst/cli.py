import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main(a):
    from dst import engine, boot
    if not a:
        print('usage: check PROPERTY | replay FILE [--json]')
        return 2
    if a[0] == 'build':
        boot.load()
        print('built')
        return 0
    if a[0] == 'replay':
        return engine.replay(a[1], '--json' in a)
    if a[0] == 'traces':
        print(json.dumps(engine.traces(a[1], int(a[2]), a[3], int(a[4]))))
        return 0
    if a[0] == 'digests':
        boot.load()
        from dst import world, fam_repro
        world.setup()
        subs = json.loads(sys.stdin.read())
        print(json.dumps([fam_repro.one(s) for s in subs]))
        return 0
    return engine.check(a[0])


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
