"""Base class of the checks."""


class Check:
    id = None
    title = ""
    technique = "deterministic simulation, seeded schedules and faults"
    level = "exploration"
    level_note = ""
    rule = ""
    boot = True
    block = ("torch", "jax")  # optional packages kept away from workers that do not need them
    env = {}
    scratch = False  # needs a scratch directory shared by its workers (removed at the end)
    lists = ("ops",)
    runs = dict(quick=400, thorough=4000)
    assumptions = []
    components = dict(real=[], stub=[])

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def prepare(self, nn, plan):
        return plan

    def concretise(self, nn, plan):
        """Replace seeded schedules by explicit ones before minimising."""
        return plan

    def run(self, nn, plan):
        raise NotImplementedError

    def shrink(self, plan):
        return iter(())

    def sample(self, plan):
        return plan
