"""What becomes of a pool's space"""
from lib import spacecheck


def run():
    import os
    deep = os.environ.get("VERIF_TIER") == "thorough"
    spacecheck.run("C18", "SpaceTrace", [("Space", "Space_safe.cfg"), ("Space", "Space.cfg")] +
                   ([("Space", "Space_safe_deep.cfg"), ("Space", "Space_live_deep.cfg")] if deep else []), 4, 60)
