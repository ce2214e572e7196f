"""Extended attributes"""
from lib import fscheck


def run():
    fscheck.run("C14", ["xattr"], 60, 12)
