"""C32: uploads are stored once, under a fresh name, inside the configured
place only.

Every upload runs in a forked child as an unprivileged user whose only
writable files are a scratch tree made by this check, so that a broken uploader
cannot reach anything real; the parent inspects the tree afterwards.
"""
from __future__ import annotations
import io
import json
import os
import pickle
import shutil
import sys
import tempfile
import types as pytypes
from itertools import product
from typing import Any
import jsonclasses.uploaders as uploaders
from jsonclasses import jsonclass, types
from mc.core import enums, eq, expect

NOBODY = 65534
URL = 'https://files.example.com'


class UploadFile:
    """Shaped like the asgi frameworks' upload."""

    def __init__(self, filename, content):
        self.filename = filename
        self.file = io.BytesIO(content)
        self.content_type = 'image/png'


class FileStorage:
    """Shaped like the wsgi frameworks' upload."""

    def __init__(self, filename, content):
        self.filename = filename
        self.content = content
        self.content_type = 'image/png'

    def save(self, path):
        with open(path, 'wb') as f:
            f.write(self.content)


SHAPES = {'asgi': UploadFile, 'wsgi': FileStorage}
CONFIG = {'uploaders': {
    'pics': {'client': 'localfs', 'config': {'dir': 'pics', 'url': URL}},
    'deep': {'client': 'localfs', 'config': {'dir': 'x/deep', 'url': URL}},
    'cloud': {'client': 's3', 'config': {
        'endpointUrl': URL, 'bucket': 'bkt', 'acl': 'public-read',
        'regionName': 'r1', 'awsAccessKeyId': 'k', 'awsSecretAccessKey': 's'}},
    'cloud2': {'client': 's3', 'config': {
        'endpointUrl': URL + '2', 'bucket': 'bkt2', 'acl': 'private',
        'regionName': 'r2', 'awsAccessKeyId': 'k2',
        'awsSecretAccessKey': 's2'}},
    'odd': {'client': 'ftp', 'config': {}},
    'noconf': {'client': 'localfs'},
    'noclient': {'config': {}}}}
DIRS = {'pics': 'pics', 'deep': 'x/deep'}


def tree(base):
    out = {}
    for d, _, files in os.walk(base):
        for f in files:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, base)] = h.read()
    return out


def in_child(scratch, fn):
    """Runs fn as nobody with the cwd inside the scratch tree."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                if os.getuid() == 0:
                    os.setgroups([])
                    os.setgid(NOBODY)
                    os.setuid(NOBODY)
                os.chdir(os.path.join(scratch, 'l1', 'l2', 'l3', 'app'))
                sys.modules['boto3'] = fake_boto3()
                res = 'ok', fn()
            except BaseException as e:
                res = 'raised', f'{type(e).__name__}: {e}'
            data = pickle.dumps(res)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


BUCKETS: list = []


def fake_boto3():
    class Client:
        def __init__(self, service, **kw):
            self.args = service, kw

        def upload_fileobj(self, fileobj, bucket, key, ExtraArgs=None):
            content = fileobj.file.read() if hasattr(fileobj, 'file') else \
                fileobj.content if hasattr(fileobj, 'content') else \
                fileobj.read()
            BUCKETS.append((self.args, bucket, key, content, ExtraArgs))
    mod = pytypes.ModuleType('boto3')
    mod.client = Client
    return mod


class Scratch:
    def __enter__(self):
        self.base = tempfile.mkdtemp(prefix='verif-c32-')
        app = os.path.join(self.base, 'l1', 'l2', 'l3', 'app')
        os.makedirs(os.path.join(app, 'public', 'pics'))
        with open(os.path.join(app, 'config.json'), 'w') as f:
            json.dump(CONFIG, f)
        for d in ('l1', 'l1/l2', 'l1/l2/l3', 'l1/l2/l3/app',
                  'l1/l2/l3/app/public', 'l1/l2/l3/app/public/pics'):
            for n in ('a', 'B.PNG', 'b.png', 'aa', 'a.gz', '.gz'):
                with open(os.path.join(self.base, d, n), 'w') as f:
                    f.write(f'existing {d}/{n}')
        for d, dirs, files in os.walk(self.base):
            for n in [d, *(os.path.join(d, x) for x in files)]:
                os.chown(n, NOBODY, NOBODY)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.base, True)


def suffix_of(name):
    """The extension: from the last dot of the last path component, unless
    that dot leads or ends it."""
    base = [p for p in name.split('/') if p not in ('', '.')]
    base = base[-1] if base else ''
    i = base.rfind('.')
    return base[i:].lower() if 0 < i < len(base) - 1 else ''


def upload_all(jobs):
    out = []
    for name, shape, filename, content in jobs:
        up = uploaders.request_uploader(name)
        out.append(up.upload(SHAPES[shape](filename, content)))
    return out


def judge(s, before, jobs, urls):
    after = tree(s.base)
    expect({k: after.get(k) for k in before} == before,
           'an existing file was changed or removed')
    new = {k: v for k, v in after.items() if k not in before}
    eq(len(new), len(jobs), 'number of new files')
    eq(len(set(urls)), len(urls), 'urls are different')
    for (name, _, filename, content), url in zip(jobs, urls):
        head = f'{URL}/public/{DIRS[name]}/'
        expect(url.startswith(head), f'url is {url}')
        stored = url[len(head):]
        expect('/' not in stored and stored not in ('', '.', '..'),
               f'stored as {stored!r}')
        path = os.path.join('l1/l2/l3/app/public', DIRS[name], stored)
        expect(path in new, f'{url} is stored as {sorted(new)}')
        eq(new[path], content, 'content')
        want = suffix_of(filename)
        if '\0' not in filename:
            expect(stored.endswith(want), f'{filename!r} became {stored!r}')
            expect(len(stored) > len(want) + 15, 'a fresh name')


def run(jobs, refusable=False):
    with Scratch() as s:
        before = tree(s.base)
        kind, res = in_child(s.base, lambda: upload_all(jobs))
        if kind == 'raised' and refusable:
            eq(tree(s.base), before, 'a refused upload left something')
            return
        eq(kind, 'ok', res)
        judge(s, before, jobs, res)


TOKENS = ['a', '.', '..', '/', 'B.PNG', '.gz', '\\', 'é']


def names(length):
    def cases():
        for n in range(1, length + 1):
            for toks in product(TOKENS, repeat=n):
                fn = ''.join(toks)
                # both shapes and both places in one program
                jobs = [(u, sh, fn, f'{u}{sh}{fn}'.encode())
                        for u in ('pics', 'deep') for sh in SHAPES]
                yield fn, lambda j=jobs: run(j)
        for fn in ('a\0', 'a.\0b', '/etc/passwd', '/etc/passwd.png',
                   'C:\\x.TXT', 'a' * 300 + '.png', '~', '~/x.png',
                   '$HOME.png', '*.png', ' .png', 'a.png ', 'a\n.png',
                   'public/pics/a', '-rf', 'a.tar.GZ', 'a.%2f..'):
            for sh in SHAPES:
                yield [fn, sh], lambda fn=fn, sh=sh: run(
                    [('pics', sh, fn, b'x')], '\0' in fn)
    return cases


def histories(length):
    steps = [(u, sh, fn) for u in DIRS for sh in SHAPES
             for fn in ('a', 'b.png', '../a')]

    def cases():
        for n in range(length + 1):
            for hist in product(steps, repeat=n):
                jobs = [(*h, f'{i}'.encode() * i) for i, h in enumerate(hist)]
                yield hist, lambda j=jobs: run(j)
    return cases


def cloud(length):
    def go(jobs):
        del BUCKETS[:]
        out = upload_all(jobs)
        return out, BUCKETS

    def run_cloud(jobs):
        with Scratch() as s:
            before = tree(s.base)
            kind, res = in_child(s.base, lambda: go(jobs))
            eq(kind, 'ok', res)
            urls, sent = res
            expect(tree(s.base) == before, 'no local file is written')
            eq(len(sent), len(jobs), 'one upload each')
            eq(len({k for _, _, k, _, _ in sent}), len(jobs), 'fresh names')
            for (u, _, fn, content), url, (args, b, key, got, extra) in zip(
                    jobs, urls, sent):
                two = '2' if u == 'cloud2' else ''
                eq(b, 'bkt' + two, 'bucket')
                eq(url, f'{URL}{two}/bkt{two}/{key}', 'url')
                eq(got, content, 'content')
                eq(extra, {'ACL': 'private' if two else 'public-read',
                           'ContentType': 'image/png'}, 'options')
                eq(args, ('s3', {'region_name': 'r2' if two else 'r1',
                                 'endpoint_url': URL + two,
                                 'aws_access_key_id': 'k' + two,
                                 'aws_secret_access_key': 's' + two}),
                   'account')
                expect(key.endswith(suffix_of(fn)) and '/' not in key,
                       f'{fn!r} became {key!r}')

    def cases():
        steps = [(u, sh, fn) for u in ('cloud', 'cloud2') for sh in SHAPES
                 for fn in ('a', 'b.PNG', '../a', 'c.d/e', '/x/y.Z')]
        for n in range(length + 1):
            for hist in product(steps, repeat=n):
                jobs = [(*h, f'{i}'.encode() * i) for i, h in enumerate(hist)]
                yield hist, lambda j=jobs: run_cloud(j)
    return cases


def fields():
    """Through the uploader modifier of a field."""
    def go(values, via):
        @jsonclass(class_graph='verif-c32')
        class Pic:
            name: Any = types.str
            image: Any = types.uploader('pics').str
            other: Any = types.uploader('deep').str
            own: Any = types.uploader(lambda v: 'own:' + v.filename).str
            ctx: Any = types.uploader(
                lambda v, c: 'ctx:' + v.filename + c.owner.name).str
        kw = {k: SHAPES[sh](fn, b'c') for k, (sh, fn) in values.items()}
        if via == 'init':
            p = Pic(name='n', **kw)
        else:
            p = Pic(name='n')
            p.set(**kw)
        p.validate()
        p.save()
        p.tojson()
        return {k: getattr(p, k) for k in ('image', 'other', 'own', 'ctx')}

    def run_fields(values, via):
        with Scratch() as s:
            before = tree(s.base)
            kind, res = in_child(s.base, lambda: go(values, via))
            eq(kind, 'ok', res)
            jobs, urls = [], []
            for k, u in (('image', 'pics'), ('other', 'deep')):
                if k in values:
                    jobs.append((u, *values[k], b'c'))
                    urls.append(res[k])
                else:
                    eq(res[k], None, k)
            judge(s, before, jobs, urls)
            for k, tail in (('own', ''), ('ctx', 'n')):
                eq(res[k], f'{k}:{values[k][1]}{tail}' if k in values
                   else None, k)

    def cases():
        opts = [None, ('asgi', 'a.PNG'), ('wsgi', '../b')]
        for combo in product(opts, repeat=4):
            values = {k: v for k, v in
                      zip(('image', 'other', 'own', 'ctx'), combo)
                      if v is not None}
            for via in ('init', 'set'):
                yield [combo, via], lambda v=values, w=via: run_fields(v, w)
    return cases


def lookups(length):
    """Asking for uploaders: one per name, unknown ones are refused."""
    kinds = {'pics': 'LocalFSUploader', 'deep': 'LocalFSUploader',
             'cloud': 'S3Uploader', 'cloud2': 'S3Uploader'}

    def go(seq):
        out, objs = [], {}
        for n in seq:
            try:
                u = uploaders.request_uploader(n)
            except ValueError:
                out.append('refused')
                continue
            first = objs.setdefault(n, u)
            out.append([type(u).__name__, first is u,
                        sum(o is u for o in objs.values())])
        return out

    def run_look(seq):
        with Scratch() as s:
            kind, res = in_child(s.base, lambda: go(seq))
            eq(kind, 'ok', res)
            eq(res, [[kinds[n], True, 1] if n in kinds else 'refused'
                     for n in seq], 'answers')

    def cases():
        opts = ['pics', 'deep', 'cloud', 'odd', 'noconf', 'noclient', 'zz']
        for n in range(1, length + 1):
            for seq in product(opts, repeat=n):
                yield seq, lambda q=seq: run_look(q)
    return cases


def scenarios(tier):
    t = tier == 'thorough'
    return [*enums(8, 'names', names(5 if t else 3)),
            *enums(4, 'histories', histories(3 if t else 2)),
            *enums(2, 'cloud', cloud(3 if t else 2)),
            *enums(1, 'fields', fields()), *enums(2, 'lookups', lookups(3))]
