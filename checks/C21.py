"""What a file system has stored makes sense"""
from lib import spacecheck


def run():
    import os
    deep = os.environ.get("VERIF_TIER") == "thorough"
    spacecheck.run("C21", "FsckTrace", [("FsStore", "FsStore_deep.cfg" if deep else "FsStore.cfg")], 4, 60)
