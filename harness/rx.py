"""The pattern language of spec/Text.tla rendered as regular expressions."""
import re


def to_regex(pat, grp=()):
    out = []
    for i, a in enumerate(pat):
        out.extend('(' for g in grp if g[0] == i + 1)
        k, s = a[0], a[1]
        if k == 'lit':
            out.append(re.escape(s))
        elif k == 'any':
            out.append('.')
        elif k == 'star':
            out.append('.*')
        elif k == 'cls':
            out.append('[' + re.escape(s) + ']')
        elif k == 'not':
            out.append('[^' + re.escape(s) + ']')
        elif k == 'plus':
            out.append('[^' + re.escape(s) + ']+')
        elif k == 'opt':
            out.append('(?:' + re.escape(s) + ')?')
        elif k == 'alt':
            out.append('(?:' + re.escape(s) + '|' + re.escape(a[2]) + ')')
        elif k == 'end':
            out.append('$')
        elif k == 'word':
            out.append(r'\w+')
        elif k == 'words':
            out.append(r'\w*')
        else:
            raise ValueError(k)
        out.extend(')' for g in grp if g[1] == i + 1)
    return ''.join(out)
