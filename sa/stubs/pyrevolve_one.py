"""Library model of pyrevolve for the analysis (never run): only the first state is kept, the rest recomputed."""


class Operator:
    def apply(self, **kwargs):
        pass


class Checkpoint:
    pass


class NumpyStorage:
    def __init__(self, size, *args, **kwargs):
        self.size = size


class DiskStorage:
    def __init__(self, size, *args, **kwargs):
        self.size = size


class BytesStorage:
    def __init__(self, size, *args, **kwargs):
        self.size = size


class BaseRevolver:
    def __init__(self, checkpoint, fwd_operator, rev_operator, n_checkpoints=None, n_timesteps=None, **kwargs):
        self.checkpoint = checkpoint
        self.fwd_operator = fwd_operator
        self.rev_operator = rev_operator
        self.n_checkpoints = n_checkpoints
        self.n_timesteps = n_timesteps
        self.stored = {}
        self.began = False

    def apply_forward(self):
        # the schedule of a revolver is used up by one run
        if self.began:
            raise ValueError("Unknown action")
        self.began = True
        self.stored[0] = self.checkpoint.get_data(0)
        self.fwd_operator.apply(t_start=0, t_end=self.n_timesteps)

    def apply_reverse(self):
        # the last step is reversed from the data left by the forward iteration
        if self.n_timesteps > 0:
            self.rev_operator.apply(t_start=self.n_timesteps - 1, t_end=self.n_timesteps)
        for t in reversed(range(self.n_timesteps - 1)):
            data = self.stored[0]
            locations = self.checkpoint.get_data_location(0)
            for k in range(len(locations)):
                locations[k][:] = data[k]
            self.fwd_operator.apply(t_start=0, t_end=t)
            self.fwd_operator.apply(t_start=t, t_end=t + 1)
            self.rev_operator.apply(t_start=t, t_end=t + 1)


class SingleLevelRevolver(BaseRevolver):
    pass


class MultiLevelRevolver(BaseRevolver):
    pass


class DiskRevolver(BaseRevolver):
    pass


class MemoryRevolver(BaseRevolver):
    pass
