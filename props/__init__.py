from . import pool, controller, aggregator, contracts  # noqa
