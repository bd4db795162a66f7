export PYTHONPATH=/repo/python/src:/verif:/verif/vsim/simray TZ=UTC TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
