"""A stand-in for h5py, which is not installed here: files of named arrays on a simulated disk.  What was written is on the disk once the
file has been closed without an error; any step can be made to fail."""
import sys, types
import numpy as np


class Disk(object):
    def __init__(self):
        self.files, self.open, self.fail, self.exc, self.steps = {}, [], None, None, 0

    def step(self, what):
        n = self.steps
        self.steps += 1
        if self.fail is not None and n == self.fail:
            self.exc = KeyboardInterrupt(what) if self.kind == "interrupt" else OSError(28, "No space left on device (%s)" % what)
            raise self.exc

    def arm(self, n, kind="full"):
        self.fail, self.kind, self.exc, self.steps = n, kind, None, 0


DISK = Disk()


class Dataset(object):
    def __init__(self, file, shape, dtype):
        self.file, self.array = file, np.zeros(shape, dtype=dtype)

    shape = property(lambda self: self.array.shape)
    dtype = property(lambda self: self.array.dtype)

    def __setitem__(self, key, value):
        self.file.check()
        DISK.step("write")
        self.array[key] = value

    def __getitem__(self, key):
        self.file.check()
        return np.array(self.array[key])


class File(object):
    def __init__(self, name, mode="r"):
        name = str(name)
        if any(f.filename == name for f in DISK.open):
            raise OSError("unable to truncate a file which is already open")
        DISK.step("open")
        if mode not in ("w", "w-", "x", "a", "r+"):
            raise ValueError("the stand-in only writes")
        self.filename, self.data = name, {} if mode == "w" else dict(DISK.files.get(name, {}))
        DISK.files[name] = None         # truncated
        DISK.open.append(self)

    def check(self):
        if not any(f is self for f in DISK.open):
            raise ValueError("Not a location (the file is closed)")

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        self.check()
        if name in self.data:
            raise ValueError("Unable to create dataset (name already exists)")
        DISK.step("create")
        if data is not None:
            data = np.asarray(data)
        d = self.data[name] = Dataset(self, data.shape if shape is None else shape, data.dtype if dtype is None and data is not None else dtype or "f4")
        if data is not None:
            d[...] = data
        return d

    def __setitem__(self, name, value):
        self.create_dataset(name, data=value)

    def __getitem__(self, name):
        return self.data[name]

    def __contains__(self, name):
        return name in self.data

    def flush(self):
        self.check()
        DISK.step("flush")

    def close(self):
        if not any(f is self for f in DISK.open):
            return
        DISK.open = [f for f in DISK.open if f is not self]
        DISK.step("close")
        DISK.files[self.filename] = {k: d.array for k, d in self.data.items()}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install():
    m = types.ModuleType("h5py")
    m.File, m.Dataset = File, Dataset
    sys.modules["h5py"] = m
