#!/bin/bash
# seedkit.sh ID... : refresh the harness copy a planted bug's demonstration carries with it
V=$(cd "$(dirname "$0")/.." && pwd)
for i in "$@"; do
  d=$V/seeded/$i
  [ -f $d/demo.c ] || { echo "no $d/demo.c"; continue; }
  rm -rf "$d/sim" "$d/tools" "$d/drivers" "$d/direct"
  mkdir -p $d/tools $d/drivers
  cp -r $V/sim $d/sim; cp $V/tools/build.py $d/tools/; cp $V/drivers/drvutil.h $V/drivers/demoutil.h $d/drivers/
  cp $d/demo.c $d/drivers/demo.c
  cp $V/tools/demo.sh $d/demo.sh; chmod +x $d/demo.sh
done
