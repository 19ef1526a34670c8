"""Builds the extractor, generates the bison/flex sources and extracts the
type-resolved AST of every translation unit of /repo that a check asks for."""
import concurrent.futures
import glob
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DXT_REPO', '/repo')
CACHE = os.environ.get('DXT_CACHE', os.path.join(VERIF, '.cache'))
DRAKE = 'third_party/com_github_robotlocomotion_drake'

SKIP_TU = ('dreal/examples/', 'dreal/odr_test_module_py.cc')


FAILED = {}


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (exit 2)."""


def _h(*chunks):
    m = hashlib.sha256()
    for c in chunks:
        m.update(c if isinstance(c, bytes) else c.encode())
        m.update(b'\0')
    return m.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def build_extractor():
    src = os.path.join(VERIF, 'extractor', 'dxt.cpp')
    key = _h(_read(src))
    out = os.path.join(CACHE, 'bin', 'dxt-' + key)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = ['g++', '-std=c++17', '-O1', '-fno-rtti', '-fno-exceptions',
           '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
           '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise AnalysisBroken('cannot build the extractor:\n' + p.stdout.decode()[-4000:])
    os.rename(tmp, out)
    return out


def repo_files(*pats):
    r = []
    for pat in pats:
        r += glob.glob(os.path.join(REPO, pat), recursive=True)
    return sorted(set(r))


def headers():
    return repo_files('dreal/**/*.h', 'third_party/**/*.h', 'third_party/**/*.hpp')


def generate():
    """bison/flex sources in CACHE/gen-<hash>."""
    srcs = repo_files('dreal/smt2/*.yy', 'dreal/smt2/*.ll', 'dreal/dr/*.yy', 'dreal/dr/*.ll',
                      'dreal/version.h.in', 'dreal/*.bzl', 'tools/generate_version_header.sh')
    key = _h('v2', *[c for s in srcs for c in (os.path.relpath(s, REPO), _read(s))])
    out = os.path.join(CACHE, 'gen-' + key)
    if os.path.isdir(out):
        return out, key
    tmp = tempfile.mkdtemp(dir=_mk(CACHE))
    for d in ('smt2', 'dr'):
        g = os.path.join(tmp, 'dreal', d)
        os.makedirs(g)
        for tool, a, b in (('/usr/bin/bison', 'parser.yy', 'parser.yy.cc'), ('/usr/bin/flex', 'scanner.ll', 'scanner.ll.cc')):
            src = os.path.join(REPO, 'dreal', d, a)
            if not os.path.exists(src):
                raise AnalysisBroken('missing ' + src)
            cmd = [tool] + (['-Wno-deprecated'] if 'bison' in tool else []) + ['-o', os.path.join(g, b), src]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise AnalysisBroken('%s failed: %s' % (tool, p.stdout.decode()))
    with open(os.path.join(tmp, 'dreal', 'version.h'), 'w') as f:
        f.write('#pragma once\n#define DREAL_VERSION_STRING "0"\n')
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out, key


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def all_tus():
    r = []
    for f in repo_files('dreal/**/*.cc', DRAKE + '/dreal/symbolic/*.cc'):
        rel = os.path.relpath(f, REPO)
        if '/test/' in rel or any(rel.startswith(s) for s in SKIP_TU):
            continue
        r.append(rel)
    return r + ['gen:dreal/smt2/parser.yy.cc', 'gen:dreal/smt2/scanner.ll.cc',
                'gen:dreal/dr/parser.yy.cc', 'gen:dreal/dr/scanner.ll.cc']


def flags(gen):
    return ['-std=c++14', '-xc++', '-w', '-iquote', REPO, '-iquote', gen,
            '-isystem', os.path.join(REPO, DRAKE) + '/.',
            '-isystem', os.path.join(REPO, 'third_party/com_github_pinam45_dynamic_bitset'),
            '-isystem', os.path.join(REPO, 'third_party/com_github_tartanllama_optional'),
            '-isystem', os.path.join(REPO, 'third_party/com_github_progschj_threadpool'),
            '-isystem', os.path.join(REPO, 'third_party/com_github_westes_flex'),
            '-isystem', os.path.join(VERIF, 'stubs'),
            '-isystem', '/usr/include/python3.12',
            '-DFMT_DEPRECATED_OSTREAM=1', '-DFMT_HEADER_ONLY=1', '-DFMT_NO_FMT_STRING_ALIAS=1',
            '-DSPDLOG_FMT_EXTERNAL', '-fno-caret-diagnostics', '-include', 'cstdint']


def probe(name, text):
    """A translation unit that calls the code under analysis (never built or run, only analysed)."""
    d = os.path.join(_mk(CACHE), 'probe-' + _h(text))
    path = os.path.join(d, name + '.cc')
    if not os.path.exists(path):
        _mk(d)
        tmp = path + '.%d.tmp' % os.getpid()
        with open(tmp, 'w') as f:
            f.write(text)
        os.rename(tmp, path)
    return 'probe:' + path


def extract(tus=None, jobs=8, allow_errors=False):
    """Returns {tu: parsed JSON}."""
    dxt = build_extractor()
    gen, genkey = generate()
    hk = _h(os.path.basename(dxt), genkey, *([_read(h) + os.path.relpath(h, REPO).encode() for h in headers()] +
                     [_read(s) for s in sorted(glob.glob(VERIF + '/stubs/*'))]))
    outdir = _mk(os.path.join(CACHE, 'ast'))
    if tus is None:
        tus = all_tus()

    def one(tu):
        path = os.path.join(gen, tu[4:]) if tu.startswith('gen:') else tu[6:] if tu.startswith('probe:') else os.path.join(REPO, tu)
        if not os.path.exists(path):
            raise AnalysisBroken('translation unit vanished: ' + tu)
        key = _h(hk, os.path.basename(tu) if tu.startswith('probe:') else tu, _read(path), REPO)
        out = os.path.join(outdir, key + '.json')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            p = subprocess.run([dxt, tmp, REPO + ':' + gen + (':' + os.path.dirname(path) if tu.startswith('probe:') else ''), path, '--'] + flags(gen),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if not os.path.exists(tmp):
                raise AnalysisBroken('extractor failed on %s: %s' % (tu, p.stderr.decode()[-2000:]))
            os.rename(tmp, out)
        with open(out) as f:
            j = json.load(f)
        if j.get('errors') and not allow_errors:
            # what does not type-check is missing from the program; the rest is analysed
            FAILED[tu] = j['errors']
            if not j.get('functions'):
                raise AnalysisBroken('%s does not parse: %s errors' % (tu, j['errors']))
        return tu, j

    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return dict(ex.map(one, tus))


if __name__ == '__main__':
    r = extract(allow_errors=True)
    for tu, j in r.items():
        print(tu, len(j['functions']), j.get('errors'))
