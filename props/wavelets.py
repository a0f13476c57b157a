"""Scaling filters of the Daubechies (minimum phase) and least-asymmetric wavelets
used as windows, from the spectral factorisation at 60 digits; where the table of
each scaling function starts, and the support the code documents for it."""
FILTER = {
    'db6': (7, 32, 1796, [
        0.11154074335010947, 0.49462389039845306, 0.7511339080210954,
        0.31525035170919763, -0.22626469396543983, -0.12976686756726194,
        0.09750160558732304, 0.027522865530305727, -0.03158203931748603,
        0.0005538422011614961, 0.004777257510945511, -0.0010773010853084796,
    ]),
    'db12': (10, 205, 2564, [
        0.013112257957229518, 0.10956627282118515, 0.37735513521421266,
        0.6571987225793071, 0.5158864784278157, -0.04476388565377463,
        -0.3161784537527855, -0.023779257256069726, 0.18247860592757967,
        0.00535956967435215, -0.09643212009650708, 0.010849130255822185,
        0.04154627749508444, -0.01221864906974828, -0.012840825198300683,
        0.00671149900879551, 0.0022486072409952378, -0.0021795036186277603,
        6.545128212509596e-06, 0.00038865306282093143, -8.850410920820432e-05,
        -2.4241545757030785e-05, 1.2776952219379767e-05, -1.529071758068511e-06,
    ]),
    'db20': (13, 499, 3332, [
        0.0007799536136668463, 0.010549394624950399, 0.06342378045908152,
        0.21994211355139703, 0.4726961853109017, 0.6104932389385939,
        0.36150229873933104, -0.13921208801148388, -0.32678680043403496,
        -0.016727088309077008, 0.22829105081991632, 0.0398502464577712,
        -0.15545875070726795, -0.024716827338613585, 0.10229171917444256,
        0.005632246857307436, -0.06172289962468046, 0.005874681811811827,
        0.03229429953076958, -0.00878932492390156, -0.01381052613715192,
        0.006721627302259457, 0.004420542387045791, -0.0035814942596096226,
        -0.0008315621728225569, 0.0013925596193231364, -5.349759843997695e-05,
        -0.00038510474869921763, 0.00010153288973670291, 6.77428082837773e-05,
        -3.710586183394713e-05, -4.376143862183997e-06, 7.2412482876736205e-06,
        -1.0119940100188862e-06, -6.847079597000557e-07, 2.6339242262700013e-07,
        2.0143220235505126e-10, -1.814843248299696e-08, 4.056127055551833e-09,
        -2.9988364896193194e-10,
    ]),
    'sym6': (7, 665, 1796, [
        -0.00780070832503238, 0.0017677118642540077, 0.04472490177078139,
        -0.02106029251237085, -0.07263752278637658, 0.3379294217281658,
        0.787641141028651, 0.49105594192797375, -0.04831174258569806,
        -0.11799011114852002, 0.0034907120842221626, 0.015404109327044824,
    ]),
    'sym12': (10, 1642, 2564, [
        -0.00017906658697508447, -1.8158078862632958e-05, 0.0023502976141833473,
        0.00030764779631052455, -0.014589836449233534, -0.002604391031331419,
        0.05780417944550475, 0.015301740622480154, -0.17037069723884962,
        -0.07833262231631544, 0.46274103121928645, 0.7634790977836405,
        0.398885972390192, -0.022162306170351302, -0.035848830736954634,
        0.0491793182996612, 0.007553780611679315, -0.024220722675013403,
        -0.001408909244329129, 0.007414965517654315, 0.00018021409008521752,
        -0.001349755755571579, -1.1353928041526612e-05, 0.00011196719424656528,
    ]),
    'sym20': (12, 3375, 3076, [
        -6.329129045042896e-07, -3.2567026426308275e-07, 1.2287252778374232e-05,
        4.525422210086227e-06, -0.00011739133516628476, -2.661555034277681e-05,
        0.0007476108598012617, 0.00012544091727041256, -0.003471647802925689,
        -0.0006111263859779794, 0.012157040948987497, 0.0019385970676619735,
        -0.03537333675746389, -0.006843701966974055, 0.08891966802862601,
        0.03625095165576088, -0.16057829842072482, -0.05108834293600639,
        0.4719914750911054, 0.7511627284288979, 0.4058314443632748,
        -0.02981936887124318, -0.0789943449267614, 0.025579349509566317,
        0.008123228356394549, -0.03162943714548432, -0.003313857384407233,
        0.0170040490232798, 0.0014230873596194143, -0.006606585799120731,
        -0.00030526283188065685, 0.0020889947081866745, 7.215991190073666e-05,
        -0.0004947310915655073, -1.9284123010161865e-05, 7.992967835712114e-05,
        3.0256660631185363e-06, -7.91936141189395e-06, -1.9015675892278172e-07,
        3.695537474791267e-07,
    ]),
}
