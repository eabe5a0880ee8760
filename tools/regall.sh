set -e
python3 tools/mkfixed.py && PYTHONPATH=tools python3 tools/mkprops.py && python3-vt tools/validate.py
git add -A; git commit -qm "$1"; git status --short | head
