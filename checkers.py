# Simulator binaries: scenario files, program images, harness images.
SIMBINS = {
    "x_sec": {"scen": ["scen_sec.c"], "images": ["spiped_1", "spiped_2"]},
    "x_time": {"scen": ["scen_time.c"], "images": ["spiped_1", "spiped_2"]},
    "x_spipe": {"scen": ["scen_spipe.c"], "images": ["spiped_2", "spipe_1"]},
    "x_cli": {"scen": ["scen_cli.c"], "images": ["spiped_1", "spipe_1"]},
    "x_dns": {"scen": ["scen_dns.c"], "images": ["spiped_1"]},
    "x_api": {"scen": ["scen_api.c"], "images": ["hevents_1", "hnet_1", "hconn_1", "hthr_1"],
              "harness": {"hevents": ["h_events.c"], "hnet": ["h_net.c"], "hconn": ["h_conn.c"], "hthr": ["h_thr.c", "/spipe/pushbits.c"]}},
    "x_fault": {"scen": ["scen_fault.c"], "images": ["spiped_1", "spiped_2"]},
    "x_pipe": {"scen": ["scen_pipe.c"], "images": ["spiped_1", "spiped_2"]},
}
# Native binaries (the real sources under AddressSanitizer and UBSan).
NATBINS = {
    "n_crypto": {"props": ["C25"], "src": "n_crypto.c", "wrap": ["cpusupport_x86_%s_detect_1" % f for f in ("sse2", "ssse3", "shani", "aesni")]},
    "n_drbg": {"props": ["C24"], "src": "n_drbg.c", "snap": True,
               "wrap": ["open", "read", "close", "cpusupport_x86_rdrand_detect_1", "generate_seed_rdrand", "libcperciva_warn", "libcperciva_warnx"]},
    "n_dh": {"props": ["C23"], "src": "n_dh.c",
             "wrap": ["crypto_entropy_read", "libcperciva_warn", "libcperciva_warnx"] +
             ["BN_" + f for f in "new bin2bn add sub mod_exp mod_mul CTX_new set_word".split()]},
    # Uses internal interfaces: if these have changed, the simulator's scenarios decide alone ("props" is who cannot do without).
    "n_proto": {"props": [], "src": "n_proto.c", "wrap": ["crypto_entropy_read"]},
    "n_util": {"props": ["C32"], "src": "n_util.c", "wrap": ["libcperciva_warn", "libcperciva_warnx"]},
    "n_msg": {"props": ["C33"], "src": "n_msg.c", "wrap": ["syslog", "vsyslog", "openlog", "closelog"]},
    "n_wipe": {"props": ["C34"], "src": "n_wipe.c",
               "wrap": ["fopen", "libcperciva_warn", "libcperciva_warnx"] + ["cpusupport_x86_%s_detect_1" % f for f in ("sse2", "ssse3", "shani", "aesni")]},
    "n_cont": {"props": ["C26"], "src": "n_cont.c"},
}
# Evidence level where it is not model_checking.
LEVELS = {}
# Time budgets in seconds where they are not 60 / 1800.
QUICK_S = {"C02": 120, "C27": 120, "C29": 120}
THOROUGH_S = {}
ASSUME = {"*": [
    "one thread runs at a time; threads switch at system calls (and, where stated, at shared memory accesses)",
    "the simulated kernel (sockets, pipes, poll, files, time) behaves as POSIX allows",
]}

T_SIM = "stateless model checking: bounded exhaustive exploration of the real daemons in a simulated kernel"
N_SIM = ("Holds on every execution of the real, unmodified code with at most the stated number of non-default "
         "environment answers per scenario; trusts the simulated kernel, OpenSSL and the scripted peers.")
CLAIMS = {i: (T_SIM, N_SIM) for i in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C27 C28 C29 C30 C31".split()}
T_NAT = "bounded exhaustive enumeration of inputs and operation sequences on the real code, against a reference model"
CLAIMS["C25"] = (T_NAT, "Every input length up to the bound, division into calls, alignment and CPU path, on the real object code under "
                 "AddressSanitizer, against OpenSSL and the definitions; trusts OpenSSL and that behaviour depends on lengths and not on data values beyond those tried.")
CLAIMS["C26"] = (T_NAT, "Every operation sequence up to the bound, and every state of small containers followed by every operation, with every allocation "
                 "failing in turn, on the real object code under AddressSanitizer, against an array model.")
CLAIMS["C23"] = (T_NAT, "About 1000 private values at all edges (every single bit set or clear, every run of low bits), about 40 public values, every failing library "
                 "call and allocation, every value one or two bits away from p; trusts OpenSSL's multiplication and division.")
CLAIMS["C24"] = (T_NAT, "Every sequence of requests up to the bound over sizes at all limits, starting around the reseed interval, with each call to the system answered "
                 "in every way; against an HMAC-DRBG written from SP 800-90A.")
CLAIMS["C32"] = (T_NAT, "Every command line, number and address string up to the stated lengths over alphabets with all significant characters, and the limits of every "
                 "type, on the real object code under AddressSanitizer, against parsers written from the headers; trusts strtod().")
CLAIMS["C33"] = (T_SIM + "; " + T_NAT, "Every sequence of calls up to the stated length on the real object code, and every run of the real programs in the stated "
                 "scenarios with at most the stated number of failing calls; trusts the simulated kernel.")
CLAIMS["C34"] = (T_NAT + "; " + T_SIM, "Every input length up to the bound, CPU path, failing allocation and read error on the real object code, with each block examined as it "
                 "is freed; and every run of the real programs in the stated scenarios. Does not look at the stack, registers, or OpenSSL's memory.")
NOTCLAIMED = {}
