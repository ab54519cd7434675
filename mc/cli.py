"""The command line of the code under test, in a process of its own: the entry
point `amanda.__main__.main`, with the VM built by mc/build.py.
    python mc/cli.py VM [arguments of amanda]"""
import os
import sys

sys.path[0] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from mc import runner  # noqa: E402

if __name__ == "__main__":
    main = runner.load_repo(sys.argv[1])
    sys.path.remove(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.argv = [os.path.join(runner.REPO, "amanda", "__main__.py"), *sys.argv[2:]]
    main.main()
