"""C18: files written and converted read back the same."""
import contextlib
import io
import json
import os
import shutil
import tempfile
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, sut
from pbt.core import require, Violation

RULE = """Sub 'save': sequences of save_sol calls on generated meshes of all element types, one to four components, attached point and
cell data of several shapes, dtypes and magnitudes, .vtu and .vtk, existing, new, nested, relative and bare paths, overwriting;
read back with meshio and compared exactly after rounding to single precision; wrongly sized data must be rejected.  Sub 'convert':
hand-written Abaqus decks (gaps and disorder in the node ids, sets) converted to .vtu/.vtk, version rewrites of generated files, JSON
round trips.  Sub 'timing': the decorators around functions with random arguments and results, exceptions included, and the file
walltime writes.  Non-trivial: attached data, more than one save or an unusual path (save); every case (convert, timing)."""
BUDGET_S = {'quick': 45, 'thorough': 900}
N = {'quad': [3, 2], 'tri': [2, 2], 'hex': [2, 1, 2], 'tet': [1, 1, 2]}


@st.composite
def data_st(draw, shapes):
    return {'name': draw(st.sampled_from(['p', 'T', 'stress_xx', 'a-b', 'K2'])), 'shape': draw(st.sampled_from(shapes)), 'log': draw(st.sampled_from([0, 0, -30, 30, 6])),
            'dtype': draw(st.sampled_from(['f8', 'f8', 'f4', 'i4', 'jax'])), 'bad': draw(st.sampled_from([0, 0, 0, 0, 0, -1, 1, 99]))}


@st.composite
def save_st(draw):
    ele = draw(st.sampled_from(fem.ALL_ELES))
    return {'mesh': {'ele': ele, 'n': N[fem.ELE[ele][1]], 'seed': draw(fem.seeds()), 'grade': True, 'jitter': .2, 'affine': draw(st.sampled_from([False, 'scale'])),
                     'curve': .1 if fem.ELE[ele][5] > 1 else 0., 'shuffle': draw(st.booleans())},
            'saves': [{'vec': draw(st.integers(1, 4)), 'ext': draw(st.sampled_from(['vtu', 'vtu', 'vtk'])), 'log': draw(st.sampled_from([0, 0, -20, 20])),
                       'path': draw(st.sampled_from(['bare', 'relative', 'here', 'nested', 'existing', 'dotdir', 'same'])), 'dtype': draw(st.sampled_from(['f8', 'f4', 'jax'])),
                       'bad': draw(st.sampled_from([0, 0, 0, 0, 0, 0, -1, 1])),
                       'cells': draw(st.lists(data_st([[], [], [2], [3], [9]]), max_size=2)), 'points': draw(st.lists(data_st([[], [1], [2], [3], [4]]), max_size=2))}
                      for _ in range(draw(st.integers(1, 3)))],
            'seed': draw(fem.seeds())}


def values(rng, n, d):
    import jax.numpy as np
    a = rng.normal(size=[n] + d.get('shape', [])) * 10. ** d['log']
    if d['dtype'] == 'i4':
        return onp.round(rng.uniform(-1000, 1000, size=[n] + d['shape'])).astype('i4')
    return np.asarray(a) if d['dtype'] == 'jax' else a.astype(d['dtype'])


def same(got, a, what, ext):
    """equal to single precision rounding; legacy VTK pads two-component arrays and squeezes single ones"""
    want = onp.asarray(a).astype(onp.float32)
    got = onp.asarray(got)
    if ext == 'vtk':
        if want.ndim == 2 and want.shape[1] == 1:
            want = want[:, 0] if got.ndim == 1 else want
        elif want.ndim == 2 and want.shape[1] == 2 and got.ndim == 2 and got.shape[1] == 3:
            require(not onp.any(got[:, 2]), "%s: padding is not zero", what)
            got = got[:, :2]
    require(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    require(onp.array_equal(got.astype(onp.float32), want), "%s: values differ, largest difference %.3g", what, onp.abs(got.astype(float) - want).max() if got.size else 0.)


@contextlib.contextmanager
def scratch_dir():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix='c18_')
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def read_back(path):
    import meshio
    try:
        return meshio.read(path)
    except Exception as e:
        raise Violation(f"the saved file cannot be read back: {type(e).__name__}: {e}")


def run_save(case):
    from jax_fem.utils import save_sol
    from jax_fem.generate_mesh import get_meshio_cell_type
    rng = onp.random.default_rng(case['seed'])
    rm = fem.make_mesh(case['mesh'])
    nn, nc, d = len(rm.points), len(rm.cells), rm.dim
    labels, written = [rm.ele], {}
    ref_type = {'QUAD4': 'quad', 'QUAD8': 'quad8', 'TRI3': 'triangle', 'TRI6': 'triangle6', 'HEX8': 'hexahedron', 'HEX20': 'hexahedron20', 'HEX27': 'hexahedron27',
                'TET4': 'tetra', 'TET10': 'tetra10'}[rm.ele]
    require(get_meshio_cell_type(rm.ele) == ref_type, "meshio type of %s is %s", rm.ele, get_meshio_cell_type(rm.ele))
    with scratch_dir() as here, contextlib.redirect_stderr(io.StringIO()):
        os.makedirs('there/sub')
        for k, s in enumerate(case['saves']):
            fe = sut.make_fe(rm, s['vec'])
            path = {'bare': f'u{k}.{s["ext"]}', 'relative': f'rel/u{k}.{s["ext"]}', 'here': f'./u.{k}.{s["ext"]}', 'nested': f'{here}/a/b c/d{k}/u.{s["ext"]}',
                    'existing': f'{here}/there/sub/u{k}.{s["ext"]}', 'dotdir': f'{here}/v1.0/out.{s["ext"]}', 'same': f'{here}/there/u.{s["ext"]}'}[s['path']]
            sol = values(rng, nn + s['bad'], {'shape': [s['vec']], 'log': s['log'], 'dtype': s['dtype']})
            cells = [(f'c_{x["name"]}{i}', values(rng, max(nc + x['bad'], 0), x)) for i, x in enumerate(s['cells'])]
            points = [(f'{x["name"]}{i}', values(rng, max(nn + x['bad'], 0), x)) for i, x in enumerate(s['points'])]
            bad = s['bad'] != 0 or any(x['bad'] for x in s['cells'] + s['points'])
            kw = {}
            if cells or k % 2:
                kw['cell_infos'] = cells
            if points or k % 2:
                kw['point_infos'] = points
            if bad:
                before = {p: open(p, 'rb').read() for p in written}
                try:
                    save_sol(fe, sol, path, **kw)
                except Exception:
                    labels.append('rejected')
                else:
                    raise Violation(f"wrongly sized data accepted: {nn} nodes, {nc} cells, solution {sol.shape}, " + ', '.join(f'{n} {a.shape}' for n, a in cells + points))
                require(all(open(p, 'rb').read() == b for p, b in before.items()), "a rejected save changed a file saved before")
                continue
            save_sol(fe, sol, path, **kw)
            require(os.path.isfile(path), "no file %s after the save", path)
            written[path] = (sol, cells, points, s)
            labels += [f'vec={s["vec"]}', s['ext'], 'path=' + s['path']]
        for path, (sol, cells, points, s) in written.items():
            m = read_back(path)
            P = onp.asarray(m.points)
            require(P.shape == (nn, 3) or P.shape == (nn, d), "points of shape %s in the file, mesh has %s", P.shape, rm.points.shape)
            require(onp.array_equal(P[:, :d], rm.points) and not onp.any(P[:, d:]), "points in the file differ by up to %.3g", onp.abs(P[:, :d] - rm.points).max())
            require(list(m.cells_dict) == [ref_type], "cell types %s in the file", list(m.cells_dict))
            require(onp.array_equal(m.cells_dict[ref_type], rm.cells), "connectivity in the file differs")
            want = {'sol': sol, **dict(points)}
            require(set(m.point_data) == set(want), "point data %s, expected %s", sorted(m.point_data), sorted(want))
            for n, a in want.items():
                same(m.point_data[n], a, f"point data {n!r} in a .{s['ext']} file", s['ext'])
            require(set(m.cell_data) == {n for n, _ in cells}, "cell data %s, expected %s", sorted(m.cell_data), [n for n, _ in cells])
            for n, a in cells:
                same(m.cell_data[n][0], a, f"cell data {n!r} in a .{s['ext']} file", s['ext'])
    nt = bool(written) and (len(written) > 1 or any(w[1] or w[2] or w[3]['path'] != 'existing' for w in written.values()))
    return {'nontrivial': nt, 'labels': sorted(set(labels)), 'observed': f'{len(written)} files'}


# ------------------------------------------------------------------------------------------------ conversion
ABQ = {'QUAD4': 'CPS4', 'QUAD8': 'S8R', 'TRI3': 'CPS3', 'TRI6': 'CPE6', 'HEX8': 'C3D8', 'HEX20': 'C3D20', 'TET4': 'C3D4', 'TET10': 'C3D10'}
text_st = st.lists(st.one_of(st.sampled_from(['<VTKFile type="UnstructuredGrid" version="2.2">', '<VTKFile type="UnstructuredGrid" version="2.20">', 'version="2.2"',
                                              '  <VTKFile type="UnstructuredGrid" version="2.2">  ', '<VTKFile type="PolyData" version="2.2">', '', '<DataArray>1 2.2 3</DataArray>',
                                              'x <VTKFile type="UnstructuredGrid" version="2.2"> <VTKFile type="UnstructuredGrid" version="2.2"> y']),
                             st.text(st.characters(codec='utf-8', exclude_categories=('Cc', 'Cs', 'Zl', 'Zp')), max_size=30)), max_size=12)
leaf = st.one_of(st.none(), st.booleans(), st.integers(-10**15, 10**15), st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=12))
json_st = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(st.text(max_size=8), c, max_size=4)), max_leaves=12)


@st.composite
def convert_st(draw):
    kind = draw(st.sampled_from(['abaqus', 'abaqus', 'version', 'vtu', 'json']))
    c = {'kind': kind, 'seed': draw(fem.seeds())}
    if kind in ('abaqus', 'vtu'):
        ele = draw(st.sampled_from(sorted(ABQ) if kind == 'abaqus' else fem.ALL_ELES))
        c['mesh'] = {'ele': ele, 'n': N[fem.ELE[ele][1]], 'seed': draw(fem.seeds()), 'grade': True, 'jitter': .2, 'affine': draw(st.sampled_from([False, 'scale'])), 'curve': 0.,
                     'shuffle': draw(st.booleans())}
        c['ext'] = draw(st.sampled_from(['vtu', 'vtk']))
        c['ids'] = draw(st.sampled_from(['plain', 'gaps', 'disorder']))
        c['sets'] = draw(st.booleans())
    elif kind == 'version':
        c['lines'], c['tail'] = draw(text_st), draw(st.booleans())
    else:
        c['obj'] = draw(st.dictionaries(st.text(max_size=8), json_st, max_size=5))
        c['indent'] = draw(st.sampled_from([None, 2]))
    return c


def write_inp(path, rm, kind, sets, rng):
    n = len(rm.points)
    ids = onp.arange(1, n + 1) if kind == 'plain' else onp.sort(rng.choice(5 * n, size=n, replace=False)) + 1
    order = onp.arange(n)
    if kind == 'disorder':
        order = rng.permutation(n)
    with open(path, 'w') as f:
        f.write('*HEADING\nwritten by the check\n** a comment\n*NODE\n')
        for i in order:
            f.write(f'{ids[i]}, ' + ', '.join(repr(float(v)) for v in list(rm.points[i]) + [0.] * (3 - rm.dim)) + '\n')
        f.write(f'*ELEMENT, TYPE={ABQ[rm.ele]}' + (', ELSET=ALL' if sets else '') + '\n')
        for k, c in enumerate(rm.cells):
            row = [str(k + 1)] + [str(ids[i]) for i in c]
            f.write(', '.join(row) + '\n')
        if sets:
            f.write('*NSET, NSET=SOME\n' + ', '.join(str(ids[i]) for i in range(0, n, 3)[:8]) + '\n')
    return order


VTU = """<?xml version="1.0"?>
<VTKFile type="UnstructuredGrid" version="2.2">
<UnstructuredGrid>
<Piece NumberOfPoints="{np}" NumberOfCells="{nc}">
<Points>
<DataArray type="Float64" NumberOfComponents="3" format="ascii">
{pts}
</DataArray>
</Points>
<Cells>
<DataArray type="Int64" Name="connectivity" format="ascii">
{con}
</DataArray>
<DataArray type="Int64" Name="offsets" format="ascii">
{off}
</DataArray>
<DataArray type="Int64" Name="types" format="ascii">
{typ}
</DataArray>
</Cells>
<PointData>
<DataArray type="Float64" Name="q" format="ascii">
{q}
</DataArray>
</PointData>
</Piece>
</UnstructuredGrid>
</VTKFile>
"""


def run_convert(case):
    import meshio
    from jax_fem.utils import modify_vtu_file, read_abaqus_and_write_vtk, json_parse
    rng = onp.random.default_rng(case['seed'])
    with scratch_dir(), contextlib.redirect_stderr(io.StringIO()):
        if case['kind'] == 'abaqus':
            rm = fem.make_mesh(case['mesh'])
            order = write_inp('in.inp', rm, case['ids'], case['sets'], rng)
            text = open('in.inp').read()
            read_abaqus_and_write_vtk('in.inp', 'out.' + case['ext'])
            require(open('in.inp').read() == text, "the input file was changed")
            m = read_back('out.' + case['ext'])
            require(onp.array_equal(onp.asarray(m.points)[:, :rm.dim], rm.points[order]), "points of the converted file differ")
            t = {'CPS4': 'quad', 'S8R': 'quad8', 'CPS3': 'triangle', 'CPE6': 'triangle6', 'C3D8': 'hexahedron', 'C3D20': 'hexahedron20', 'C3D4': 'tetra', 'C3D10': 'tetra10'}[ABQ[rm.ele]]
            pos = onp.argsort(order)
            require(list(m.cells_dict) == [t] and onp.array_equal(m.cells_dict[t], pos[rm.cells]), "cells of the converted file differ")
            return {'nontrivial': True, 'labels': ['abaqus:' + rm.ele, case['ext'], 'ids=' + case['ids']], 'observed': f'{len(rm.points)} nodes'}
        if case['kind'] == 'vtu':
            rm = fem.make_mesh(case['mesh'])
            q = rng.normal(size=len(rm.points))
            code = {'QUAD4': 9, 'QUAD8': 23, 'TRI3': 5, 'TRI6': 22, 'HEX8': 12, 'HEX20': 25, 'HEX27': 29, 'TET4': 10, 'TET10': 24}[rm.ele]
            num = lambda a: '\n'.join(' '.join(repr(float(v)) for v in r) for r in a)
            with open('in.vtu', 'w') as f:
                f.write(VTU.format(np=len(rm.points), nc=len(rm.cells), pts=num(onp.pad(rm.points, ((0, 0), (0, 3 - rm.dim)))), con='\n'.join(' '.join(map(str, c)) for c in rm.cells),
                                   off=' '.join(str((i + 1) * rm.cells.shape[1]) for i in range(len(rm.cells))), typ=' '.join([str(code)] * len(rm.cells)), q=' '.join(repr(float(v)) for v in q)))
            modify_vtu_file('in.vtu', 'out.vtu')
            m = read_back('out.vtu')
            require(onp.array_equal(onp.asarray(m.points)[:, :rm.dim], rm.points) and onp.array_equal(list(m.cells_dict.values())[0], rm.cells), "mesh after the version rewrite differs")
            require(onp.array_equal(m.point_data['q'], q), "data after the version rewrite differs")
            return {'nontrivial': True, 'labels': ['vtu:' + rm.ele], 'observed': ''}
        if case['kind'] == 'version':
            text = '\n'.join(case['lines']) + ('\n' if case['tail'] else '')
            with open('in.vtu', 'w') as f:
                f.write(text)
            modify_vtu_file('in.vtu', 'out.vtu')
            a, b = '<VTKFile type="UnstructuredGrid" version="2.2">', '<VTKFile type="UnstructuredGrid" version="1.0">'
            require(open('out.vtu').read() == text.replace(a, b), "the rewrite changed more (or less) than the version tag: %r -> %r", text, open('out.vtu').read())
            require(open('in.vtu').read() == text, "the input file was changed")
            return {'nontrivial': a in text, 'labels': [f'version:tags={text.count(a)}'], 'observed': ''}
        with open('in.json', 'w') as f:
            json.dump(case['obj'], f, indent=case['indent'])
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            got = json_parse('in.json')
        require(got == case['obj'] and repr(got) == repr(json.loads(json.dumps(case['obj']))), "json_parse returned %r for %r", got, case['obj'])
        require(json.loads(buf.getvalue()) == case['obj'], "json_parse prints something else than the file's content")
        return {'nontrivial': bool(case['obj']), 'labels': ['json'], 'observed': ''}


# ------------------------------------------------------------------------------------------------ timing
@st.composite
def timing_st(draw):
    return {'dec': draw(st.sampled_from(['timeit', 'walltime', 'walltime_dir', 'walltime_name'])), 'args': draw(st.lists(leaf, max_size=3)),
            'kwargs': draw(st.dictionaries(st.sampled_from(['a', 'b', 'txt_dir', 'filename', 'func']), leaf, max_size=3)), 'result': draw(st.sampled_from(['tuple', 'array', 'none', 'gen', 'raise'])),
            'calls': draw(st.integers(1, 3)), 'sleep': draw(st.sampled_from([0., 0., .02]))}


def run_timing(case):
    import time
    from jax_fem.utils import timeit, walltime
    seen = []

    class Boom(Exception):
        pass

    def work(*args, **kwargs):
        "doc"
        seen.append((args, kwargs))
        if case['sleep']:
            time.sleep(case['sleep'])
        if case['result'] == 'raise':
            raise Boom('x')
        out = {'tuple': (1, [2], {'c': args}), 'array': onp.arange(5.), 'none': None, 'gen': (i for i in range(3))}[case['result']]
        made.append(out)
        return out
    made = []
    with scratch_dir() as here:
        dec = case['dec']
        files = None
        if dec == 'timeit':
            f = timeit(work)
            require(f.__name__ == 'work' and f.__doc__ == 'doc', "timeit loses the function's name or docstring")
        else:
            kw = {} if dec == 'walltime' else {'txt_dir': os.path.join(here, 'out', 'x')}
            if dec == 'walltime_name':
                kw['filename'] = 'mine'
            f = walltime(**kw)(work)
            files = None if dec == 'walltime' else os.path.join(here, 'out', 'x')
        for k in range(case['calls']):
            try:
                got = f(*case['args'], **case['kwargs'])
            except Boom:
                require(case['result'] == 'raise', "unexpected exception")
                got = None
            else:
                require(case['result'] != 'raise', "the exception of the wrapped function is swallowed")
                require(got is made[-1], "the result of the wrapped function is replaced: %r", got)
            require(len(seen) == k + 1 and seen[k] == (tuple(case['args']), case['kwargs']), "the wrapped function was called %d times with %r", len(seen), seen[-1:])
            if files and case['result'] != 'raise':
                names = os.listdir(files)
                require(len(names) == 1 and names[0].startswith('mine_' if dec == 'walltime_name' else 'walltime_') and names[0].endswith('.txt'), "timing files %s", names)
                a, b, c = (float(v) for v in open(os.path.join(files, names[0])).read().split(','))
                now = time.time()
                require(now - 3600 < a <= b <= now + 1 and abs(c - (b - a)) < 1e-6 and c >= .9 * case['sleep'], "timing file records %r", (a, b, c))
        require(dec != 'walltime' or os.listdir(here) == [], "walltime without a directory writes files")
    return {'nontrivial': True, 'labels': [case['dec'], 'result=' + case['result']], 'observed': ''}


SUBS = {'save': {'strategy': save_st, 'run': run_save, 'examples': {'quick': 560, 'thorough': 12000}, 'weight': 1.5},
        'convert': {'strategy': convert_st, 'run': run_convert, 'examples': {'quick': 560, 'thorough': 12000}, 'weight': 1},
        'timing': {'strategy': timing_st, 'run': run_timing, 'examples': {'quick': 160, 'thorough': 4000}, 'weight': .5}}
