"""The library's source list."""
import os
import re

REPO = os.environ.get('VC_REPO', '/repo')


def sources():
    """the library's sources, as its CMakeLists.txt lists them"""
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    txt = re.sub(r'#.*', '', txt)
    out = []
    for m in re.finditer(r'[\w./${}-]+\.c\b', txt):
        p = m.group()
        p = p.replace('${CMAKE_CURRENT_SOURCE_DIR}/', '').replace('${PROJECT_SOURCE_DIR}/', '')
        full = os.path.join(REPO, p)
        if os.path.exists(full) and p.startswith('src/') and full not in out:
            out.append(full)
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            full = os.path.join(d, f)
            if f.endswith('.c') and full not in out and 'GLOB' in txt:
                out.append(full)
    return out
