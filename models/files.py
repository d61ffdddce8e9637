'''Files that hold symbolic text.'''

import builtins
import contextlib
import os
import tempfile


class File:
    def __init__(self, text):
        # text mode translates line ends
        self.text = text.replace('\r\n', '\n').replace('\r', '\n')

    def read(self, size=-1):
        if size is None or size < 0:
            size = len(self.text)
        r, self.text = self.text[:size], self.text[size:]
        return r

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def close(self):
        pass


@contextlib.contextmanager
def file(sx, text, suffix=''):
    '''A readable file with the given text; yields its name.'''
    if sx.symbolic:
        from symx import rt
        name = '/nonexistent/definition' + suffix

        def opened(path, mode='r', *_, **__):
            if path != name or mode != 'r':
                raise FileNotFoundError(path)
            return File(text)
        rt.STUBS[id(builtins.open)] = opened
        try:
            yield name
        finally:
            del rt.STUBS[id(builtins.open)]
    else:
        fd, name = tempfile.mkstemp(suffix, 'vp')
        try:
            with os.fdopen(fd, 'w', encoding='utf-8', newline='') as fh:
                fh.write(text)
            yield name
        finally:
            os.unlink(name)
