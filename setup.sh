#!/bin/bash
# builds the MIR exporter; the checks build it themselves when it is missing
cd "$(dirname "$0")" || exit 2
python3 -c 'from checks import lib; print(lib.driver())'
