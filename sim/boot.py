"""Bring up jschon from /repo inside the simulated environment."""
import os
import sys

REPO = os.environ.get('SIM_REPO', '/repo')
PREFIX = os.path.join(REPO, 'jschon') + os.sep


class BootFailure(Exception):
    """jschon itself could not be brought up."""


catalogs = {}


def boot(drafts):
    from sim import seams
    seams.install()
    sys.path.insert(0, REPO)
    import encodings.idna, encodings.cp1252, encodings.latin_1, encodings.ascii, encodings.utf_8_sig  # noqa
    import encodings.utf_16, encodings.utf_32, encodings.shift_jis, encodings.cp437  # noqa
    import copy, decimal, fractions, pathlib, requests, shutil, tempfile, traceback, uuid  # noqa
    try:
        import jschon
        import jschon.formats, jschon.output, jschon.utils, jschon.vocabulary.format  # noqa
        import jschon.catalog._2019_09, jschon.catalog._2020_12, jschon.catalog._next  # noqa
    except Exception as e:
        raise BootFailure(f'jschon does not import: {type(e).__name__}: {e}') from e
    if not jschon.__file__.startswith(PREFIX):
        raise RuntimeError(f'jschon imported from {jschon.__file__}')
    if drafts:
        try:
            for d in drafts:
                catalogs[d] = jschon.create_catalog(d, name=f'sim-{d}')
            if len(drafts) > 1:
                catalogs['all'] = jschon.create_catalog(*drafts, name='catalog')
            else:
                catalogs['all'] = catalogs[drafts[0]]
                jschon.Catalog._catalog_registry['catalog'] = catalogs['all']
        except Exception as e:
            raise BootFailure(f'create_catalog({", ".join(drafts)}) failed: {type(e).__name__}: {e}') from e
    warm_http()


def warm_http():
    """One simulated request, so that no import happens during runs."""
    import requests
    from sim import seams
    from sim.kernel import Ctx
    ctx = Ctx({})
    seams.env = seams.Environment(ctx)
    try:
        seams.env.web['http://warm.test/x'] = {'status': 200, 'headers': {'Content-Type': 'application/json'},
                                               'body': b'{}'}
        requests.get('http://warm.test/x').json()
        seams.env.web['http://warm.test/y'] = {'status': 302, 'headers': {'Location': 'http://warm.test/x'},
                                               'body': b''}
        requests.get('http://warm.test/y').content
        requests.get('https://warm.test/z').status_code
    finally:
        seams.env = None
