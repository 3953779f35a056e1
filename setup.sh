#!/bin/bash
cd "$(dirname "$0")"
python3 lib/build.py py
