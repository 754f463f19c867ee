"""Imports done once per worker, before the first case."""
import logging

logging.disable(logging.CRITICAL)
import ray  # noqa: E402

assert getattr(ray, "SIMULATED", False), "the simulator's ray must come first on the path"

from dst import kernel  # noqa: E402

kernel.patch_locks()
import rxn_network.jobs.core  # noqa: E402,F401
import rxn_network.network.network  # noqa: E402,F401
import rxn_network.pathways.solver  # noqa: E402,F401
