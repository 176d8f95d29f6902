"""C29: the Rust interface answers what the C library answers."""
import bindcommon


def main():
    return bindcommon.main("C29", "rust")
