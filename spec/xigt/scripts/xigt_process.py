#!/usr/bin/env python3

import sys

def main(arglist=None):
    sys.exit('This command is deprecated; try `xigt partition`')

if __name__ == '__main__':
    main()
