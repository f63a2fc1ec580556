"""Library model of pyrevolve for the analysis (never run): every step keeps a checkpoint."""


class Operator:
    def apply(self, **kwargs):
        pass


class Checkpoint:
    pass


class NumpyStorage:
    def __init__(self, size, *args, **kwargs):
        self.size = size


class DiskStorage:
    def __init__(self, size, *args, **kwargs):
        self.size = size


class BytesStorage:
    def __init__(self, size, *args, **kwargs):
        self.size = size


class BaseRevolver:
    def __init__(self, checkpoint, fwd_operator, rev_operator, n_checkpoints=None, n_timesteps=None, **kwargs):
        self.checkpoint = checkpoint
        self.fwd_operator = fwd_operator
        self.rev_operator = rev_operator
        self.n_checkpoints = n_checkpoints
        self.n_timesteps = n_timesteps
        self.stored = {}
        self.began = False

    def apply_forward(self):
        # the schedule of a revolver is used up by one run
        if self.began:
            raise ValueError("Unknown action")
        self.began = True
        for t in range(self.n_timesteps):
            self.stored[t] = self.checkpoint.get_data(t)
            self.fwd_operator.apply(t_start=t, t_end=t + 1)

    def apply_reverse(self):
        for t in reversed(range(self.n_timesteps)):
            data = self.stored[t]
            locations = self.checkpoint.get_data_location(t)
            for k in range(len(locations)):
                locations[k][:] = data[k]
            self.fwd_operator.apply(t_start=t, t_end=t + 1)
            self.rev_operator.apply(t_start=t, t_end=t + 1)


class SingleLevelRevolver(BaseRevolver):
    pass


class MultiLevelRevolver(BaseRevolver):
    pass


class DiskRevolver(BaseRevolver):
    pass


class MemoryRevolver(BaseRevolver):
    pass
