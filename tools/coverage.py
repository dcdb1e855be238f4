"""Which lines of hwtypes the simulated runs execute.

  python tools/coverage.py RUNS [PROP...]     prints the lines no run executed
"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def child(pid, runs, out):
    from sim import runner, seams
    seams.install(12345)
    prop = runner.load_prop(pid)
    if hasattr(prop, 'prepare'):
        prop.prepare()
    seams.finish_install()
    hit = set()
    m = sys.monitoring
    m.use_tool_id(4, 'cover')

    def on_line(code, line):
        hit.add((os.path.basename(code.co_filename), line))
        return m.DISABLE
    m.register_callback(4, m.events.LINE, on_line)
    for c in seams._codes:
        m.set_local_events(4, c, m.events.LINE)
    fin = runner.Ctx._finish

    def finish(self, res):
        with open(out, 'a') as f:
            f.write(json.dumps(sorted(hit)) + '\n')
        fin(self, res)
    runner.Ctx._finish = finish
    for i in range(runs):
        runner.execute(prop, runner.make_case(prop, 1, 'quick', i))


def main():
    if sys.argv[1] == '--child':
        return child(sys.argv[2], int(sys.argv[3]), sys.argv[4])
    runs = sys.argv[1]
    props = sys.argv[2:] or [f'C{i:02}' for i in range(1, 15)]
    d = tempfile.mkdtemp(prefix='cover-')
    ps = [(p, subprocess.Popen([sys.executable, __file__, '--child', p, runs, os.path.join(d, p)])) for p in props]
    hit = set()
    for p, c in ps:
        c.wait()
        n = set()
        for line in open(os.path.join(d, p)):
            n.update(map(tuple, json.loads(line)))
        print(p, len(n))
        hit |= n
    import dis
    repo = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'hwtypes')
    for f in sorted(os.listdir(repo)):
        if not f.endswith('.py'):
            continue
        src = open(os.path.join(repo, f)).read()
        lines = set()

        def walk(c, top):
            if not top:
                for _, _, ln in c.co_lines():
                    if ln and ln != c.co_firstlineno:
                        lines.add(ln)
            for k in c.co_consts:
                if hasattr(k, 'co_code'):
                    walk(k, k.co_name[0].isupper() and not k.co_argcount)
        walk(compile(src, f, 'exec'), True)
        miss = sorted(l for l in lines if (f, l) not in hit)
        print(f'{f}: {len(lines) - len(miss)}/{len(lines)}')
        text = src.split('\n')
        for l in miss:
            print(f'   {l}: {text[l - 1].strip()}')


main()
