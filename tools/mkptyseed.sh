#!/bin/bash
# mkptyseed.sh ID PROPERTY "needs" "breaks" DEMO.rs DEMO.py: as mkseed.sh, for a demo driven on a pseudo-terminal
set -e
bash /verif/tools/mkseed.sh "$1" "$2" "$3" "$4" < "$5"
cp "$6" /verif/seeded/$1/demo.py; cp /verif/tools/demo_pty.sh.tmpl /verif/seeded/$1/demo.sh; chmod +x /verif/seeded/$1/demo.sh
