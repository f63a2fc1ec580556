"""Library models for the analysis of the integrator (never run)."""

import numpy as np


class ModelVector:
    """OpenMDAO vector: named parts of one flat array"""

    def __init__(self, kind, flat, parts, hidden=()):
        self._kind = kind
        self._flat = flat
        self._parts = parts
        self._hidden = hidden  # not part of the current product, although their values can be reached

    def __getitem__(self, name):
        part = self._parts[name]
        return self._flat[part[0] : part[1]].reshape(part[2])

    def __setitem__(self, name, value):
        part = self._parts[name]
        if len(part[2]) == 1:
            self._flat[part[0] : part[1]] = value
        else:
            self._flat[part[0] : part[1]] = value.flatten()

    def __contains__(self, name):
        return name in self._parts and name not in self._hidden

    def __len__(self):
        return len(self._flat)

    def keys(self):
        return [name for name in self._parts if name not in self._hidden]

    def __iter__(self):
        return iter([name for name in self._parts if name not in self._hidden])

    def asarray(self, copy=False):
        if copy:
            return self._flat.copy()
        return self._flat

    def set_val(self, val, idxs=None):
        self._flat[:] = val

    def set_vec(self, vec):
        self._flat[:] = vec._flat

    def add_scal_vec(self, val, vec):
        self._flat[:] += val * vec._flat

    def get_val(self, name, flat=True):
        part = self._parts[name]
        if flat:
            return self._flat[part[0] : part[1]]
        return self._flat[part[0] : part[1]].reshape(part[2])

    def set_var(self, name, val):
        self[name] = val


class ModelCriterion:
    def is_iteration_finished(self, iteration, time_integration_state):
        pass


class ModelTimedCriterion(ModelCriterion):
    def remaining_time(self, time):
        pass


class ModelController:
    def __init__(self, config, memory):
        self.config = config
        self.memory = memory

    def __call__(self, *, error_measure, delta_t, remaining_time, error_history, step_size_history):
        pass

    def reset(self):
        self.memory[0] = 0.0


class ModelCheckpointer:
    def __init__(self, termination_criterion, run_step_func, run_step_jacvec_rev_func, state, state_perturbation, memory=None, **options):
        self.termination_criterion = termination_criterion
        self.run_step_func = run_step_func
        self.run_step_jacvec_rev_func = run_step_jacvec_rev_func
        self.state = state
        self.state_perturbation = state_perturbation
        self.options = options
        self.memory = np.zeros(1)

    def create_checkpointer(self):
        if model_failure("create"):
            raise RuntimeError("create")
        model_create(self)

    def iterate_forward(self, initial_state):
        if model_failure("forward"):
            model_forward(self, initial_state)
            raise RuntimeError("forward")
        return model_forward(self, initial_state)

    def iterate_reverse(self, final_state_perturbation):
        if model_failure("reverse"):
            model_reverse(self, final_state_perturbation)
            raise RuntimeError("reverse")
        return model_reverse(self, final_state_perturbation)


def model_failure(where):
    pass


def model_create(checkpointer):
    pass


def model_forward(checkpointer, initial_state):
    pass


def model_reverse(checkpointer, final_state_perturbation):
    pass
