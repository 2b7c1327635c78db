#!/bin/bash
# developer helper: record the last /repo commit as a repaired defect: fixed.sh ID what failed
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD~${3:-0}) $2" >> /verif/known_findings.txt
