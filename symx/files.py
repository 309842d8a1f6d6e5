"""Removal of scratch directories, not seen by the environment stubs."""

import posix


def remove_tree(path):
    try:
        entries = list(posix.scandir(path))
    except OSError:
        return
    for e in entries:
        try:
            if e.is_dir(follow_symlinks=False):
                remove_tree(e.path)
            else:
                posix.unlink(e.path)
        except OSError:
            pass
    try:
        posix.rmdir(path)
    except OSError:
        pass
