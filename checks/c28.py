"""C28: the Java interface answers what the C library answers."""
import bindcommon


def main():
    return bindcommon.main("C28", "java")
