CONF["C01"] = dict(src=["p_roundtrip.cpp", "p_large.cpp"])
CONF["C02"] = dict(src=["p_write.cpp", "p_large.cpp"])
CONF["C03"] = dict(src=["p_read.cpp", "p_large.cpp"])
CONF["C04"] = dict(src=["p_select.cpp", "p_large.cpp"])
CONF["C05"] = dict(src=["p_map.cpp", "p_large.cpp"])
CONF["C06"] = dict(src=["p_values.cpp"])
CONF["C07"] = dict(src=["p_values.cpp"])
CONF["C08"] = dict(src=["p_uels.cpp", "p_large.cpp"])
CONF["C26"] = dict(src=["p_uels.cpp", "p_large.cpp"])
CONF["C09"] = dict(src=["p_meta.cpp"])
CONF["C10"] = dict(src=["p_meta.cpp"])
CONF["C11"] = dict(src=["p_meta.cpp", "p_large.cpp"])
CONF["C12"] = dict(src=["p_append.cpp", "p_large.cpp"])
CONF["C13"] = dict(src=["p_append.cpp"])
CONF["C14"] = dict(src=["p_protocol.cpp", "p_trace.cpp", "api.cpp", "ops.cpp"])
CONF["C15"] = dict(src=["p_files.cpp"])
CONF["C16"] = dict(src=["p_files.cpp"])
CONF["C17"] = dict(src=["p_codec.cpp", "codec.cpp"])
CONF["C18"] = dict(src=["p_capi.cpp", "api.cpp", "api_c.cpp", "api_wrap.cpp", "ops.cpp"], repo_src=["generated/gdxcc.c"], clib=True)
CONF["C19"] = dict(src=["p_indep.cpp", "api.cpp", "ops.cpp"], variant="tsan")
CONF["C20"] = dict(src=["p_dump.cpp", "tooldoc.cpp"], tools=["gdxdump"])
CONF["C21"] = dict(src=["p_diff.cpp", "tooldoc.cpp"], tools=["gdxdiff"])
CONF["C22"] = dict(src=["p_merge.cpp", "tooldoc.cpp"], tools=["gdxmerge"])
CONF["C23"] = dict(src=["p_containers.cpp"])
CONF["C24"] = dict(src=["p_streams.cpp"])
CONF["C25"] = dict(src=["p_numbers.cpp"])
CONF["C28"] = dict(src=["p_text.cpp"])
CONF["C27"] = dict(src=["p_corrupt.cpp", "codec.cpp", "tooldoc.cpp"], tools=["gdxdump", "gdxdiff", "gdxmerge"])
