"""Which specification, driver and trace specification decide each property."""
from dataclasses import dataclass, field


@dataclass
class MC:
    """One exhaustive model-checking run of a specification."""
    module: str
    cfg: str | None = None
    tiers: tuple = ("quick", "thorough")
    workers: str = "auto"


@dataclass
class Gen:
    """Behaviours generated by TLC from a specification (simulation or enumeration)."""
    module: str
    cfg: str
    simulate: dict | None = None      # tier -> num of behaviours
    depth: int = 100


@dataclass
class Plan:
    driver: str
    trace: str                        # module judging the records
    trace_cfg: str
    mc: list = field(default_factory=list)
    gen: list = field(default_factory=list)
    stateful: bool = False
    drive_limit: dict = field(default_factory=lambda: {"quick": 240, "thorough": 3000})
    judge_limit: dict = field(default_factory=lambda: {"quick": 400, "thorough": 6000})
    assumptions: list = field(default_factory=list)
    note: str = ""


MSG = [MC("OwnMessageMC"), MC("OwnMessageMC", "OwnMessageMC_thorough", tiers=("thorough",))]
STREAM = [MC("OwnStreamMC"), MC("OwnStreamMC", "OwnStreamMC_thorough", tiers=("thorough",))]
TAGS = [MC("OwnTagsMC")]
SESSION = [MC("OwnSessionMC")]
LIFE = [MC("OwnLifecycleMC"), MC("OwnLifecycleMC", "OwnLifecycleMC_thorough", tiers=("thorough",))]
EXCH = [MC("OwnExchangeMC"), MC("OwnExchangeMC", "OwnExchangeMC_thorough", tiers=("thorough",))]
EXSEQ = [Gen("OwnExchangeMC", "OwnExchangeGenSeq", {"quick": 400, "thorough": 10000}, 40)]
CATALOGUE = [MC("OwnCatalogueMC", tiers=("quick",)), MC("OwnCatalogueMC", "OwnCatalogueMC_thorough", tiers=("thorough",))]
EVENTS = [MC("OwnEventsMC"), MC("OwnEventsMC", "OwnEventsMC_close"),
          MC("OwnEventsMC", "OwnEventsMC_thorough", tiers=("thorough",)), MC("OwnEventsMC", "OwnEventsMC_thorough2", tiers=("thorough",))]


def events(pid, quick):
    return Plan("events:" + pid.lower(), "OwnEventsTrace", pid, mc=EVENTS,
                gen=[Gen("OwnEventsMC", "OwnEventsGen" + pid, {"quick": quick, "thorough": 25 * quick}, 60)])


LIFEGEN = [Gen("OwnLifecycleMC", "OwnLifecycleGen", {"quick": 800, "thorough": 10000}, 40)]

PLANS = {
    "C01": Plan("message:c01", "OwnMessageTrace", "C01", mc=MSG),
    "C02": Plan("message:c02", "OwnMessageTrace", "C02", mc=MSG),
    "C03": Plan("stream:c03", "OwnStreamTrace", "C03", mc=STREAM,
                gen=[Gen("OwnStreamMC", "OwnStreamGen", {"quick": 300, "thorough": 5000}, 12)]),
    "C04": Plan("stream:c04", "OwnStreamTrace", "C04", mc=STREAM,
                gen=[Gen("OwnStreamMC", "OwnStreamGenBad", {"quick": 1000, "thorough": 10000}, 12)]),
    "C05": Plan("message:c05", "OwnMessageTrace", "C05", mc=MSG),
    "C06": Plan("tags:c06", "OwnTagsTrace", "C06", mc=TAGS),
    "C07": Plan("tags:c07", "OwnTagsTrace", "C07", mc=TAGS),
    "C08": Plan("tags:c08", "OwnPasswordTrace", "C08", mc=[MC("OwnPasswordMC")]),
    "C09": Plan("tags:c09", "OwnTagsTrace", "C09", mc=TAGS),
    "C10": Plan("session:c10", "OwnSessionTrace", "C10", mc=SESSION, gen=[Gen("OwnSessionMC", "OwnSessionGen")]),
    "C11": Plan("session:c11", "OwnSessionTrace", "C11", mc=SESSION, gen=[Gen("OwnSessionMC", "OwnSessionGen")]),
    "C12": Plan("lifecycle:c12", "OwnLifecycleTrace", "C12", mc=LIFE, gen=LIFEGEN),
    "C13": Plan("reader:c13", "OwnReaderTrace", "C13",
                mc=[MC("OwnReaderMC"), MC("OwnReaderMC", "OwnReaderMC_thorough", tiers=("thorough",))],
                gen=[Gen("OwnReaderMC", "OwnReaderGen", {"quick": 1500, "thorough": 20000}, 30)]),
    "C14": Plan("flow:c14", "OwnFlowTrace", "C14",
                mc=[MC("OwnFlowMC"), MC("OwnFlowMC", "OwnFlowMC_thorough", tiers=("thorough",))],
                gen=[Gen("OwnFlowMC", "OwnFlowGen", {"quick": 1500, "thorough": 20000}, 30)]),
    "C15": Plan("exchange:c15", "OwnExchangeTrace", "C15", mc=EXCH, gen=EXSEQ),
    "C16": Plan("exchange:c16", "OwnExchangeTrace", "C16", mc=EXCH, gen=EXSEQ),
    "C17": Plan("exchange:c17", "OwnExchangeTrace", "C17", mc=EXCH,
                gen=[Gen("OwnExchangeMC", "OwnExchangeGen", {"quick": 1000, "thorough": 20000}, 40)]),
    "C18": Plan("catalogue:c18", "OwnCatalogueTrace", "C18", mc=CATALOGUE),
    "C19": Plan("catalogue:c19", "OwnCatalogueTrace", "C19", mc=CATALOGUE),
    "C20": Plan("catalogue:c20", "OwnCatalogueTrace", "C20", mc=CATALOGUE),
    "C21": events("C21", 200),
    "C22": events("C22", 300),
    "C23": events("C23", 400),
    "C24": events("C24", 100),
    "C25": Plan("lifecycle:c25", "OwnLifecycleTrace", "C25", mc=LIFE, gen=LIFEGEN),
    "C26": Plan("custom:c26", "OwnCustomTrace", "C26",
                mc=[MC("OwnCustomMC"), MC("OwnCustomMC", "OwnCustomMC_thorough", tiers=("thorough",))]),
    "C27": Plan("clients:c27", "OwnClientsTrace", "C27",
                mc=[MC("OwnClientsMC"), MC("OwnClientsMC", "OwnClientsMC_thorough", tiers=("thorough",))],
                gen=[Gen("OwnClientsMC", "OwnClientsGen", {"quick": 150, "thorough": 4000}, 40)]),
    "C28": Plan("secret:c28", "OwnSecretTrace", "C28",
                mc=[MC("OwnSecretMC"), MC("OwnSecretMC", "OwnSecretMC_thorough", tiers=("thorough",))]),
    "C29": Plan("crash:c29", "OwnCrashTrace", "C29",
                mc=[MC("OwnCrashMC"), MC("OwnCrashMC", "OwnCrashMC_thorough", tiers=("thorough",))]),
    "C30": Plan("items:c30", "OwnItemsTrace", "C30",
                mc=[MC("OwnItemsMC"), MC("OwnItemsMC", "OwnItemsMC_thorough", tiers=("thorough",))]),
}
