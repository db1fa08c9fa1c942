#!/bin/bash
# builds the MIR extractor and warms the dependency metadata the extraction needs
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.path.insert(0, 'analysis')
import common; common.build_driver(); common.extract(); print('setup done')"
