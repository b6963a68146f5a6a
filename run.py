import sys

from rv import engine

engine.import_target()

from rv import registry  # noqa: E402  (after the target, so that the harness sees the tree under test)

engine.main(registry.PROPS, sys.argv[1:])
