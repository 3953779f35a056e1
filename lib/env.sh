export LD_LIBRARY_PATH=/verif/build/o PYTHONPATH=/verif/build/py CANTERA_DATA=/repo/data OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PATH=/opt/cantera-venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1
