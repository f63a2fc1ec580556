"""Library model of h5py for the analysis of the file writer (never run)."""

import h5_native


class Keys:
    """view of the names in a group"""

    def __init__(self, path):
        self._path = path

    def __iter__(self):
        return h5_native.keys(self._path)

    def __contains__(self, name):
        return h5_native.contains(self._path, name)

    def __len__(self):
        return h5_native.length(self._path)


class Node:
    """file, group or dataset: all are named by their path"""

    def __init__(self, path):
        self._path = path

    def __getitem__(self, key):
        return h5_native.get(self, self._path, key)

    def __setitem__(self, key, value):
        h5_native.write(self._path, key, value)

    def create_group(self, name, track_order=None):
        h5_native.group(self._path, name)
        return h5_native.get(self, self._path, name)

    def require_group(self, name):
        h5_native.require(self._path, name)
        return h5_native.get(self, self._path, name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kwargs):
        h5_native.dataset(self._path, name, shape, dtype, data)
        return h5_native.get(self, self._path, name)

    def require_dataset(self, name, shape, dtype, **kwargs):
        h5_native.redataset(self._path, name, shape, dtype, None)
        return h5_native.get(self, self._path, name)

    def keys(self):
        return Keys(self._path)

    def __iter__(self):
        return h5_native.keys(self._path)

    def items(self):
        return h5_native.items(self, self._path)

    def values(self):
        return h5_native.values(self, self._path)

    def __contains__(self, name):
        return h5_native.contains(self._path, name)

    def __len__(self):
        return h5_native.length(self._path)

    @property
    def shape(self):
        return h5_native.shape(self._path)


class File(Node):
    def __init__(self, name, mode="r", driver=None, comm=None, **kwargs):
        self._path = ()
        self._name = name
        h5_native.open(name, mode, driver, comm)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        h5_native.close(self._name)

    def close(self):
        h5_native.close(self._name)

    def flush(self):
        pass
