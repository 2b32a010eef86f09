"""The modules under test and the ports the harness uses (public attributes only)."""
import importlib


def mk(mod, cls, kind="cfg"):
    def make(cfg):
        c = getattr(importlib.import_module(mod), cls)
        if kind == "none":
            return c()
        import constraints
        k = {x: y for x, y in cfg.items() if not x.startswith("_")}
        return c(k, constraints.Constraints())
    return make


DESIGNS = {}


def add(name, mod, cls, ins, outs, kind="cfg", info=None):
    d = dict(make=mk(mod, cls, kind), kind=kind, ins=ins.split() if isinstance(ins, str) else ins,
             outs=outs.split() if isinstance(outs, str) else outs)
    if info:
        d["info"] = info
    DESIGNS[name] = d


# --- pipeline stages
add("predictor4", "predictor_p1_c4_px4", "PredictorP1C4Px4", "pixels_in* new_row valid_in end_in",
    "pixels_out* predics_out* valid_out end_out")
add("predictor12", "predictor_p1_c4_pix1_2", "PredictorP1C4Pix12", "pixels_in* new_row valid_in end_in",
    "pixels_out* predics_out* valid_out end_out")
add("difference", "difference", "Difference", "pixels_in* predics_in* valid_in end_in",
    "vals_out* vals_out_mns* valid_out end_out")
add("normalize", "normalize", "Normalize", "vals_in* vals_in_mns* valid_in end_in",
    "vals_out* ssssx* valid_out end_out")


def enc_ins(cfg):
    l = "vals_in* ssssx* valid_in end_in".split()
    if cfg["support_axi_lite"]:
        l += ["w_addr=extern_w_port.addr", "w_data=extern_w_port.data", "w_en=extern_w_port.en",
              "r_addr=extern_r_port.addr"]
    return l


def enc_outs(cfg):
    l = "encs_out* encs_ctr* valid_out end_out".split()
    if cfg["support_axi_lite"]:
        l += ["r_data=extern_r_port.data"]
    return l


add("encode", "encode", "Encode", enc_ins, enc_outs)
add("merge", "merge", "Merge", "encs_in* encs_in_ctr* valid_in end_in", "enc_out enc_out_ctr valid_out end_out")
add("signals", "signals", "Signals", "height width new_input", "end_of_frame new_row")
add("force_end", "force_end", "ForceEnd", "valid_in allowed_cycles", "fend")
add("register_file", "register_file", "RegisterFile", "", "height width allowed_cycles", kind="none")

# --- buffering and packing
add("lj92_pipeline_fifo", "lj92_pipeline_fifo", "LJ92PipelineFifo",
    "enc_in enc_in_ctr in_end valid_in latch_output", "enc_out enc_out_ctr out_end valid_out close_full")
add("converter_fifo", "converter_fifo", "ConverterFifo",
    "enc_in enc_in_ctr in_end valid_in latch_output", "enc_out enc_out_ctr out_end valid_out close_full writable")
add("converter", "converter", "Converter", "enc_out enc_out_ctr out_end valid_out close_full",
    "latch_output enc_in enc_in_ctr in_end valid_in")
add("vbits", "vbits_to_cbits", "VBitsToCBits", "enc_in enc_in_ctr in_end valid_in busy_in",
    "latch_input data_out valid_out end_out")

# --- framing
add("fix_0xff", "fix_0xff", "Fix0xFF", "data_in valid_in i_busy end_in",
    "data_out data_out_ctr valid_out o_busy end_out", kind="none")
add("fix_0xff2", "fix_0xff2", "Fix0xFF2", "data_in data_in_ctr valid_in i_busy end_in",
    "data_out valid_out o_busy end_out", kind="none")


def mkchain(cfg):
    """both stuffing stages, connected the way every integration connects them"""
    from nmigen import Elaboratable, Module, Signal
    import fix_0xff, fix_0xff2

    class Chain(Elaboratable):
        def __init__(self):
            self.a, self.b = fix_0xff.Fix0xFF(), fix_0xff2.Fix0xFF2()
            self.data_in, self.valid_in, self.end_in, self.o_busy = self.a.data_in, self.a.valid_in, self.a.end_in, self.a.o_busy
            self.data_out, self.valid_out, self.end_out, self.i_busy = self.b.data_out, self.b.valid_out, self.b.end_out, self.b.i_busy

        def elaborate(self, platform):
            m = Module()
            m.submodules.a, m.submodules.b = self.a, self.b
            a, b = self.a, self.b
            m.d.comb += [b.data_in.eq(a.data_out), b.data_in_ctr.eq(a.data_out_ctr), b.valid_in.eq(a.valid_out),
                         b.end_in.eq(a.end_out), a.i_busy.eq(b.o_busy)]
            return m
    return Chain()


DESIGNS["fixchain"] = dict(make=mkchain, ins="data_in valid_in i_busy end_in".split(),
                           outs="data_out valid_out o_busy end_out".split())
add("markers", "markers", "Markers", "data_in valid_in end_in force_end_in i_busy",
    "data_out valid_out end_out o_busy", kind="none")
add("auto_reset", "auto_reset", "AutoReset", "end_in hs1_in hs2_in", "reset_out", kind="none")


# --- AXI
AXIL_IN = "r.araddr r.arvalid r.rready w.awaddr w.awvalid w.wdata w.wstrb w.wvalid w.bready".split()
AXIL_OUT = "r.arready r.rdata r.rresp r.rvalid w.awready w.wready w.bresp w.bvalid".split()


def axil(path, suffix="", kind="in"):
    p = path + "." if path else ""
    l = []
    for x in (AXIL_IN if kind == "in" else AXIL_OUT):
        d, n = x.split(".")
        l.append("%s=%ss_axi_%s%s%s.%s" % (n, p, d, "i" if kind == "in" else "o", suffix, n))
    return l


def core_axi_ins(cfg):
    return axil("") + ["rp_data"] + (["debug_en"] if cfg["axi_lite_debug"] else [])


add("core_axi_lite", "core_axi_lite", "CoreAxiLite", core_axi_ins,
    axil("", kind="out") + "height width allowed_cycles wp_addr wp_data wp_en rp_addr".split())
add("dma_axi_lite", "dma_axi_lite", "DMAAxiLite", axil("", "_") + ["in%d" % i for i in range(1, 10)],
    axil("", "_", "out") + "read_addr write_addr start".split(), kind="none")
add("debug_module", "debug_module", "DebugModule", "regs_en", "registers*", kind="none")


def kw(mod, cls):
    def make(cfg):
        return getattr(importlib.import_module(mod), cls)(**{x: y for x, y in (cfg or {}).items() if not x.startswith("_")})
    return make


def addk(name, mod, cls, ins, outs):
    DESIGNS[name] = dict(make=kw(mod, cls), ins=ins.split(), outs=outs.split())


addk("axihp_reader", "axihp_reader", "AxiHPReader",
     "enable data_full addr_in addr_empty arready=m_axi_ri.arready rdata=m_axi_ri.rdata rlast=m_axi_ri.rlast "
     "rresp=m_axi_ri.rresp rvalid=m_axi_ri.rvalid rid=m_axi_ri.rid",
     "inactive data_enable data_out addr_enable reader_error reader_active araddr=m_axi_ro.araddr "
     "arvalid=m_axi_ro.arvalid arlen=m_axi_ro.arlen arburst=m_axi_ro.arburst arsize=m_axi_ro.arsize "
     "arid=m_axi_ro.arid arprot=m_axi_ro.arprot rready=m_axi_ro.rready")
addk("axihp_writer", "axihp_writer", "AxiHPWriter",
     "enable addr_in addr_empty data_in data_empty write_strobe awready=m_axi_wi.awready wready=m_axi_wi.wready "
     "bid=m_axi_wi.bid bresp=m_axi_wi.bresp bvalid=m_axi_wi.bvalid",
     "inactive addr_enable data_enable writer_error writer_active writer_unconf awaddr=m_axi_wo.awaddr "
     "awvalid=m_axi_wo.awvalid awprot=m_axi_wo.awprot awlen=m_axi_wo.awlen awburst=m_axi_wo.awburst awsize=m_axi_wo.awsize "
     "awid=m_axi_wo.awid wid=m_axi_wo.wid wdata=m_axi_wo.wdata wstrb=m_axi_wo.wstrb wlast=m_axi_wo.wlast "
     "wvalid=m_axi_wo.wvalid bready=m_axi_wo.bready")
addk("axihp_fifo", "axihp_fifo", "AxiHPFifo", "data_in end_in valid_in read",
     "data_out end_out valid_out writable readable writable16 readable16")
addk("address_generator", "address_generator", "AddressGenerator", "address_latch starting_address",
     "address_o address_valid")
addk("delayer", "delayer", "Delayer", "in_sig", "out_sig")
addk("reverser", "reverser", "Reverser", "data_in", "data_out")
addk("axi_lite", "axi_lite", "AxiLite",
     "arid=s_axi_ri.arid araddr=s_axi_ri.araddr arprot=s_axi_ri.arprot arvalid=s_axi_ri.arvalid rready=s_axi_ri.rready "
     "awid=s_axi_wi.awid awaddr=s_axi_wi.awaddr awprot=s_axi_wi.awprot awvalid=s_axi_wi.awvalid wdata=s_axi_wi.wdata "
     "wstrb=s_axi_wi.wstrb wvalid=s_axi_wi.wvalid bready=s_axi_wi.bready "
     "m_arready=m_axi_ri.arready m_rdata=m_axi_ri.rdata m_rresp=m_axi_ri.rresp m_rvalid=m_axi_ri.rvalid "
     "m_awready=m_axi_wi.awready m_wready=m_axi_wi.wready m_bresp=m_axi_wi.bresp m_bvalid=m_axi_wi.bvalid",
     "arready=s_axi_ro.arready rid=s_axi_ro.rid rdata=s_axi_ro.rdata rlast=s_axi_ro.rlast rresp=s_axi_ro.rresp "
     "rvalid=s_axi_ro.rvalid awready=s_axi_wo.awready wready=s_axi_wo.wready bid=s_axi_wo.bid bresp=s_axi_wo.bresp "
     "bvalid=s_axi_wo.bvalid m_araddr=m_axi_ro.araddr m_arprot=m_axi_ro.arprot m_arvalid=m_axi_ro.arvalid "
     "m_rready=m_axi_ro.rready m_awaddr=m_axi_wo.awaddr m_awprot=m_axi_wo.awprot m_awvalid=m_axi_wo.awvalid "
     "m_wdata=m_axi_wo.wdata m_wstrb=m_axi_wo.wstrb m_wvalid=m_axi_wo.wvalid m_bready=m_axi_wo.bready")

# --- width converters
for _n, _c in (("b16_b64", "B16B64"),):
    add(_n, _n, _c, "data_in valid_in i_busy end_in", "data_out valid_out o_busy end_out", kind="none")
for _n, _c in (("b16_b40", "B16B40"), ("b64_b32", "B64B32"), ("b64_b32_2", "B64B32_2")):
    add(_n, _n, _c, "data_in valid_in i_busy", "data_out valid_out o_busy", kind="none")

# --- integrations


def core_of(path):
    return path + ("." if path else "") + "core_axi_lite"


def shipped(axi):
    """complete designs: AXI-lite as shipped, unless the configuration is overridden"""
    return lambda c: ((c or {}).get("_config") or {}).get("support_axi_lite", axi)


def integ(name, mod, cls, path, ins, outs, kind="cfg", axi=lambda c: c.get("support_axi_lite")):
    """path: attribute path from the design to its integration_1."""
    def i(cfg):
        l = list(ins)
        if axi(cfg):
            l += axil(core_of(path))
            if cfg.get("axi_lite_debug"):
                l.append("debug_en=" + core_of(path) + ".debug_en")
        return l

    def o(cfg):
        l = list(outs)
        l.append("fend=" + path + ("." if path else "") + "fend_out")
        if axi(cfg):
            l += axil(core_of(path), kind="out")
        return l
    add(name, mod, cls, i, o, kind=kind)


integ("integration_1", "integration_1", "Integration1", "", ["pixels_in*", "valid_in"],
      "enc_out enc_out_ctr valid_out end_out".split())
integ("integration_2", "integration_2", "Integration2", "integration_1", ["pixels_in*", "valid_in", "latch_output"],
      "enc_out enc_out_ctr valid_out out_end nready".split())
integ("integration_3", "integration_3", "Integration3", "integration_2.integration_1",
      ["pixels_in*", "valid_in", "busy_in"], "data_out valid_out end_out nready".split())
I3 = "integration_3.integration_2.integration_1"
integ("beta", "beta_integration", "BetaIntegration", I3, "pixel_in1 pixel_in2 valid_in busy_in".split(),
      "data_out valid_out end_out nready".split(), kind="none", axi=shipped(False))
DESIGNS["beta"]["own_reset"] = True
integ("micro", "micro_integration", "MicroIntegration", I3, "pixel_in valid_in busy_in".split(),
      "data_out valid_out end_out nready".split(), kind="none", axi=shipped(True))
DESIGNS["micro"]["own_reset"] = True


# --- wrappers
AXIS = "m_tready s_tvalid s_tdata".split()
integ("beta_axis", "beta_integration_axistream", "BetaIntegrationAxiStream", "top." + I3, AXIS + ["s_tlast"],
      "m_tvalid m_tlast m_tdata s_tready".split(), kind="none", axi=shipped(False))
integ("micro_axis", "micro_integration_axistream", "MicroIntegrationAxiStream", "top." + I3, AXIS + ["s_tlast"],
      "m_tvalid m_tlast m_tdata s_tready".split(), kind="none", axi=shipped(True))
integ("beta_fifo_axis", "beta_integration_fifo_axistream", "BetaIntegrationFIFOAxiStream", "top." + I3, AXIS,
      "m_tvalid m_tlast m_tdata s_tready".split(), kind="none", axi=shipped(False))
integ("beta_fifo_lvds", "beta_integration_fifo_lvds", "BetaIntegrationFIFOLVDS", "top." + I3, AXIS,
      "m_tvalid m_tdata s_tready".split(), kind="none", axi=shipped(False))
integ("i3_axis", "integration_3_axi_stream", "Integration3AxiStream", "top.integration_2.integration_1", AXIS + ["s_tlast"],
      "m_tvalid m_tlast m_tdata s_tready".split(), kind="none", axi=shipped(False))
for _n in ("beta_axis", "micro_axis", "beta_fifo_axis", "beta_fifo_lvds"):
    DESIGNS[_n]["own_reset"] = True
add("beta_fullaxi", "beta_integration_fullaxi", "BetaIntegrationFullAxi",
    axil("dma_axi_lite", "_") + ["r_%s=axihp_reader.m_axi_ri.%s" % (x, x) for x in "arready rdata rlast rresp rvalid rid".split()] +
    ["w_%s=axihp_writer.m_axi_wi.%s" % (x, x) for x in "awready wready bid bresp bvalid".split()],
    axil("dma_axi_lite", "_", "out") +
    ["r_%s=axihp_reader.m_axi_ro.%s" % (x, x) for x in "araddr arvalid arlen arburst arsize rready".split()] +
    ["w_%s=axihp_writer.m_axi_wo.%s" % (x, x) for x in "awaddr awvalid awlen awburst awsize wdata wstrb wlast wvalid bready".split()],
    kind="none")
DESIGNS["beta_fullaxi"]["own_reset"] = True
