"""Sizes and strings that occur as literals in the library under test: used to choose inputs near them.

Literals that the committed list (lib/known_literals.json) does not have come first. This only guides the choice of
inputs; verdicts never depend on it."""
import os, re, json, ast

NUM = re.compile(r'(?<![\w.])\(*\s*\d+(?:[ \d()*+\-]|<<|\*\*)*')
STR = re.compile(r"""(?<!\w)[bu]?(?:'((?:[^'\\\n]|\\.)*)'|"((?:[^"\\\n]|\\.)*)")""")

def sources(lib):
    for d, _, fs in os.walk(lib):
        if os.sep + 'tests' in d:
            continue
        for f in sorted(fs):
            if f.endswith('.py'):
                yield open(os.path.join(d, f), encoding='utf-8', errors='replace').read()

def strip_doc(s):
    return re.sub(r'"""[\s\S]*?"""|\'\'\'[\s\S]*?\'\'\'', '""', re.sub(r'(?m)#.*$', '', s))

def literals(lib):
    nums, strs = set(), set()
    for src in sources(lib):
        src = strip_doc(src)
        for m in NUM.finditer(src):
            t = m.group(0)
            for cand in {t.strip(), *re.findall(r'\d+', t)}:
                c = cand
                while c and c.count('(') != c.count(')'):
                    c = c[1:] if c.count('(') > c.count(')') and c.startswith('(') else c[:-1]
                c = c.strip(' *+-<')
                if c and re.fullmatch(r'[\d\s()*+\-<]+', c) and len(c) < 40 and not re.search(r'\*\*\s*\(?\d{3,}', c):
                    try:
                        v = eval(re.sub(r'\b0+(?=\d)', '', c), {'__builtins__': {}})
                    except Exception:
                        continue
                    if isinstance(v, int) and 0 <= v <= 1 << 24:
                        nums.add(v)
        for m in STR.finditer(src):
            t = m.group(1) if m.group(1) is not None else m.group(2)
            try:
                v = ast.literal_eval("'" + t.replace("'", "\\'").replace("\\\\'", "\\'") + "'")
            except Exception:
                continue
            if 0 < len(v) <= 40 and all(ord(c) < 256 for c in v) and '\n' not in v and '%' not in v:
                strs.add(v)
    return nums, strs

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_literals.json')
def harvest(lib):
    nums, strs = literals(lib)
    try:
        k = json.load(open(KNOWN))
    except OSError:
        k = {'nums': [], 'strs': []}
    return {'nums': sorted(nums), 'strs': sorted(strs),
            'new_nums': sorted(nums - set(k['nums'])), 'new_strs': sorted(strs - set(k['strs']))}

if __name__ == '__main__':
    import sys
    nums, strs = literals(sys.argv[1])
    json.dump({'nums': sorted(nums), 'strs': sorted(strs)}, open(KNOWN, 'w'), indent=0)
