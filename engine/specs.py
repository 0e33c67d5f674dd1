import specs_sp, specs_enc, specs_send, specs_scan, specs_dleq, specs_psbt, specs_sign, specs_buf, specs_run, models_more, models_ext
