import k_req, k_lazy, k_dict, k_handlers, k_file, k_fun, k_set
RUN = dict((k.__name__[2:], k.run) for k in (k_req, k_lazy, k_dict, k_handlers, k_file, k_fun, k_set))
