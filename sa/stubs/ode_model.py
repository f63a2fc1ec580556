"""Library model of the stage problem wrapper for the analysis of the integrator (never run)."""


class OpenMDAOODE:
    def __init__(self, time_stage_problem, time_integration_quantities, independent_input_quantities=None, norm_exclusions=None, norm_order=2.0):
        self.time_stage_problem = time_stage_problem
        self.time_integration_quantities = time_integration_quantities
        self.independent_input_quantities = independent_input_quantities
        self.time_integration_metadata = model_metadata(self)

    def get_state_size(self):
        return self.time_integration_metadata.time_integration_array_size

    def get_independent_input_size(self):
        return self.time_integration_metadata.time_independent_input_size

    def get_independent_output_size(self):
        return 0

    def get_linearization_point_size(self):
        return model_linearization_size(self)


def model_metadata(ode):
    pass


def model_linearization_size(ode):
    pass
