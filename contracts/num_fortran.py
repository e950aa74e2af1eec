"""Run-time evaluation of C07: the module built from the current ext_integrals.f95 against quadrature."""
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

import geotecha.speccon

SRC = os.path.join(os.path.dirname(os.path.abspath(geotecha.speccon.__file__)), 'ext_integrals.f95')


def build():
    d = tempfile.mkdtemp(prefix='c07_')
    try:
        shutil.copy(SRC, os.path.join(d, 'ext_integrals.f95'))
        env = dict(os.environ, FC='gfortran', CC='gcc', PATH=os.path.dirname(sys.executable) + ':/usr/local/bin:/usr/bin:/bin')
        p = subprocess.run([sys.executable, '-m', 'numpy.f2py', '-c', '--backend', 'meson', '--build-dir', os.path.join(d, 'bld'),
                            '-m', 'ext_integrals', 'ext_integrals.f95'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        so = os.path.join(d, 'ext_integrals' + sysconfig.get_config_var('EXT_SUFFIX'))
        if not os.path.exists(so):
            raise RuntimeError('ext_integrals.f95 does not build: %s' % p.stdout[-2000:].decode('utf-8', 'replace'))
        name = 'geotecha.speccon.ext_integrals'
        spec = importlib.util.spec_from_file_location(name, so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        sys.modules[name] = m
        geotecha.speccon.ext_integrals = m
    finally:
        shutil.rmtree(d, ignore_errors=True)


build()

import numpy as np
from dv.numh import check, main
import num_speccon as ns
import num_loads as nl


def fortran(gen):
    return lambda rng, k: dict(gen(rng, k), impl='fortran')


for _name, _gen, _test in [('af', ns.ggen(['a']), ns.t_af), ('abf', ns.ggen(['a', 'b']), ns.t_abf), ('D_aDf', ns.ggen(['a']), ns.t_adf),
                           ('DD_abDDf', ns.ggen(['a', 'b']), ns.t_ddf), ('ab', ns.ggen(['a', 'b']), ns.t_ab),
                           ('abc', ns.ggen(['a', 'b', 'c']), ns.t_abc), ('D_aDb', ns.dadb_gen, ns.t_dadb)]:
    check('C07', _name, fortran(_gen))(lambda _test=_test, **d: _test(**d))


def lgen(rng, k):
    d = nl.gen(rng, k)
    d['y'] = [round(v * 8) / 8 for v in d['y']]      # equal or well apart (precondition)
    if rng.random() < 0.4:           # a slight change of magnitude is a change
        j = rng.randrange(1, len(d['y']))
        d['y'][j] = d['y'][j - 1] * (1 + rng.choice([1e-2, -3e-3, 3e-5, 1e-4])) or 1.0
    d['impl'] = 'fortran'
    return d


for _name, _test in [('load', nl.t1), ('load rate', nl.t2), ('cosine load', nl.t3), ('sine load', nl.t4), ('cosine load rate', nl.t5)]:
    check('C07', _name, lgen)(lambda _test=_test, **d: _test(**d))

if __name__ == '__main__':
    main()
