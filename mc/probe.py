"""
Answers queries in a process of its own: reads {"repo", "scratch", "dictionaries": [[aff, dic, lookups, suggests]...],
"order": [indices of dictionaries in the order of loading]} from stdin, writes the answers.
"""
import json
import os
import sys


def main():
    task = json.load(sys.stdin)
    sys.dont_write_bytecode = True
    sys.path.insert(0, task['repo'])
    from spylls.hunspell import Dictionary
    loaded = {}
    for i in task['order']:
        aff, dic, _, _ = task['dictionaries'][i]
        path = os.path.join(task['scratch'], 'p%d' % i)
        for ext, text in (('.aff', aff), ('.dic', dic)):
            with open(path + ext, 'w', encoding='utf-8', newline='') as f:
                f.write(text)
        loaded[i] = Dictionary.from_files(path)
    res = []
    for i, (_, _, lookups, suggests) in enumerate(task['dictionaries']):
        if i in loaded:
            d = loaded[i]
            res.append([i, [d.lookup(w) for w in lookups], [list(d.suggest(w)) for w in suggests],
                        [sorted(map(str, d.lookuper.good_forms(w))) for w in lookups]])
    json.dump(res, sys.stdout)


if __name__ == '__main__':
    main()
