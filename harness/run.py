import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

if __name__ == '__main__':
    pid, tier = sys.argv[1:3]
    replay = None
    if '--replay' in sys.argv:
        replay = sys.argv[sys.argv.index('--replay')+1]
    sys.exit(common.main(pid, tier, replay))
