"""What the Russian texts of the tables have to say, from the Blue Book: code -> words that must appear (lower case), '!' before a word that must not, '~' for a space."""

ENUMS = dict(
    AccessMode="0 нет|1 чтение !запись|2 запись !чтение|3 чтение запись !подлинн|4 чтение подлинн !запись|5 запись подлинн !чтение|6 чтение запись подлинн",
    ClientSAP="0 отсутств|1 управлени|16 публичн|32 считыват|48 конфигурат|64 инициатив|80 обновлен|96 дисплей",
    AuthenticationMethod="0 нет|1 общ|2 iff",
    MechanismIdElement="0 низш|1 низк парол|2 высокий !md5 !sha !gmac !ecd|3 высокий md5|4 высокий sha1|5 высокий gmac|6 высокий sha256|7 высокий ecd",
    AssociationStatus="0 нет|1 ожидан|2 установлен",
    AccessModeMeth="0 нет|1 доступно !подлинн|2 доступ подлинн",
    CommSpeed="0 300|1 600|2 1200|3 2400|4 4800|5 9600|6 19200|7 38400|8 57600|9 115200",
    RestrictionType="0 без|1 дат|2 вход",
    KeyInfoType="0 идентификац|1 оберн|2 соглас",
    ProtectionType="0 аутентиф|1 шифр",
    TransportServiceType="0 tcp|1 udp|2 ftp|3 smtp|4 sms|5 hdlc|6 m_bus|7 zigbee|8 gateway",
    MessageType="0 a-xdr|1 xml",
    PushOperationMethod="0 неподтв сбоя|1 неподтв пропущ|2 подтвержд !непод",
    IdentifiedKeyInfoOptions="0 одноадр|1 широковещ",
    KEKId="0 мастер",
    ClockBase="0 не~опред|1 кварц|2 50|3 60|4 gps|5 радио",
    ControlState="0 отключено|1 включено|2 переподкл",
    ControlMode="0 отсутствует|1 (b,~c) (f) (g) (d) (e)|2 (b,~c) (f) (g) (a) (e)|3 (b,~c) !(f) (g) (d) (e)|4 (b,~c) !(f) (g) (a) (e)|5 (b,~c) (f) (g) (d) (e) (h)|6 (b,~c) !(f) (g) (d) (e) (h)",
    Status="0 не~зарег !ищет|1 домашн|2 ищет|3 отверг|4 неизвест|5 роуминг",
    CSAttachment="0 не~|1 вход|2 активно !не",
    PSStatus="0 не~|1 gprs|2 edge|3 umts|4 hsdpa|5 lte|6 cdma",
    ImageTransferStatus="0 не~иниц|1 передача инициир !не~|2 проверка инициир|3 проверка пройд|4 проверка неуд|5 активация инициир|6 активация пройд|7 активация неуд",
    SortMethod="1 fifo|2 lifo|3 наибол|4 наимен|5 ближ|6 дальн",
    SecurityPolicy="0 ничего|1 аутент !шифр|2 шифр !аутент|3 аутент шифр",
    SecuritySuite="0 128 !подпись|1 128 подпись|2 256 подпись",
    KeyID="0 одноадр|1 широковещ|2 аутентиф|3 мастер",
    CertificateEntity="0 сервер|1 клиент|2 администр|3 проч",
    CertificateType="0 подпись|1 ключей|2 tls|3 проч",
    KeyPair="0 подпись|1 согл|2 tls",
    CertificateIdentificationType="0 объект|1 серийн",
    ServiceId="1 атрибут !метод|2 метод !атрибут",
    TYPE="1 =~1|2 =~n одинак не~|3 =~n одинак !не~|4 =~n разн не~|5 =~n разн !не~",
)

CLASSES = """1 данные|3 !актив !табл !монитор !расшир !усред !контрол регистр|4 расшир регистр|5 регистр усредн|6 актив регистр|7 профиль|8 часы|9 сценари|10 !одного расписан|11 особ дн|12 соединен коротк|15 соединен логич|17 sap
|18 передача двоичн|19 оптопорт|20 календар|21 регистр контрол|22 одного действ|23 hdlc !ssas|24 вит|25 m-bus ведом|26 утилит|27 модем !gprs|28 автоответ|29 автосоедин|30 защита данн|40 инициатив|41 tcp udp|42 ipv4|43 mac ethernet
|44 ppp|45 gprs|46 smtp|47 gsm|48 ipv6|50 s-fsk phy|51 инициатор s-fsk|52 таймаут s-fsk|53 счетчик s-fsk|55 llc !type|56 s-fsk отчетн|57 llc type 1|58 llc type 2|59 llc type 3|61 таблич регистр|62 данных|63 статус|64 безопасн
|65 монитор парам|67 датчик|68 арбитр|70 отключ|71 огранич|72 клиент m-bus|73 беспровод|74 мастер m-bus|76 m-bus|77 диагност m-bus|80 llc sscs|81 физич prime|82 настро prime mac|83 функц prime mac|84 счетчик prime mac|85 админ prime
|86 приложен prime|90 счетчик g3-plc|91 настро g3-plc mac|92 g3-plc 6lowpan|95 настро wi-sun|96 диагн wi-sun|97 rpl|98 mpl|100 ntp|101 запуск zigbee|102 присоед zigbee|103 фрагмент zigbee|104 сети zigbee|105 тун zigbee|111 счет|112 кредит
|113 заряд|115 токен|122 управл|123 массив|124 защита порта|126 настро schc|127 диагн schc|128 настро lorawan|129 диагн lorawan|130 идентиф 14908|131 настро протокол 14908|132 статус протокол 14908|133 диагн 14908
|140 hs-plc mac|141 hs-plc cpas|142 hs-plc ip|143 hs-plc hdlc|151 lte""".replace("\n", "")

TYPES = """0 отсут|1 массив !упак|2 структур|3 логич|4 бит|5 32 со знак|6 32 без знак|9 байт|10 ascii|12 utf-8|13 двоично-десят|15 8-разр !без со знак|16 16 со знак|17 8-разр без знак|18 16 без знак|19 упакован|20 64 со знак|21 64 без знак
|22 перечисл|23 4- плав|24 8- плав|25 дата время|26 !время дата|27 !дата время""".replace("\n", "")

MEDIA = dict(ActivePowerPlus="положит активн qi+qiv", ActivePowerMinus="отрицат активн qii+qiii", ReactivePowerPlus="положит реактивн qi+qii !qiii", ReactivePowerMinus="отрицат реактивн", ApparentPowerPlus="положит полн",
             ApparentPowerMinus="отрицат полн", ActivePowerQi="!реакт активн !qii qi", ActivePowerQii="!реакт активн !qiii qii", ActivePowerQiii="!реакт активн qiii", ActivePowerQiv="!реакт активн qiv",
             ReactivePowerQi="реактивн !qii qi", ReactivePowerQii="реактивн !qiii qii", ReactivePowerQiii="реактивн qiii", ReactivePowerQiv="реактивн qiv", ReactivePowerInductive="индукт реактивн qi+qiii",
             ReactivePowerCapacitive="емкост реактивн qii+qiv", L1L2LineVoltage="линейн l1-l2", L2L3LineVoltage="линейн l2-l3", L3L1LineVoltage="линейн l3-l1", L1PowerFactor="фактор a", L2PowerFactor="фактор b", L3PowerFactor="фактор c",
             L0Current="ток нейтр", L0Voltage="напряж нейтр", Current="ток", Voltage="напряж", SupplyFrequency="частот", Angels="углов", Abstract="абстракт", Electricity="электро", Gas="газ", Water="вод", Hca="тепл", Thermal="тепл",
             ThresholdValues="порог", RegisterMonitorObjects="контрол", AllCurrent="суммарн ток", AllPowerFactor="фактор всем")

UNITS = dict(enumerate("год мес нед дн ч мин с ° °c валюта м м/с м³ м³* м³/ч м³/ч* м³/дн м³/дн* л кг н нм па 100000н/м² дж дж/ч вт в*а вар вт*ч в*а*ч вар*ч а кл в в/м ф ом ом*м вб тл а/м гн гц 1/(вт*ч) 1/(вар*ч) "
                       "1/(в*а*ч) в²*ч а²*ч кг/с см к 1/(в²*ч) 1/(а²*ч) 1/м³ % а*ч".split(), 1)) | {60: "3600дж/м³", 61: "дж/м³", 62: "моль%", 63: "г/м³", 64: "па*с", 65: "дж/кг", 66: "г/см²", 67: "атм", 70: "дбм", 71: "дбмкв", 72: "дб",
                                                                                                       255: "ед"}


def rows(text):
    """'code word word|...' -> (code, words)"""
    for row in text.split("|"):
        code, _, words = row.partition(" ")
        yield int(code), words.rstrip("\n")


def says(text, words):
    """the first word that is not said (or said against the table), or None"""
    t = text.lower()
    for w in (k.replace("~", " ") for k in words.split()):
        if (w[1:] in t) if w[0] == "!" else (w not in t):
            return w
    return None

# elements of the enumerations of the standard: "module tail:class" -> elements
ELEMENTS = {
    "enums:CommSpeed": range(10), "enums:RestrictionType": range(3), "enums:KeyInfoType": range(3), "enums:ProtectionType": range(4),
    "enums:ClientSAP": (0, 1, 16, 32, 48, 64, 80, 96), "choices:IdentifiedKeyInfoOptions": (0, 1), "choices:KEKId": (0,),
    "common_data_types:Unit": range(1, 256), "clock:ClockBase": range(6), "image_transfer_status:ImageTransferStatus": range(8),
    "association_ln.ver0:AccessMode": range(4), "association_ln.ver0:AssociationStatus": range(3), "mechanism_id:MechanismIdElement": range(8),
    "association_ln.ver1:AccessMode": range(7), "association_ln.ver1:AccessModeMeth": range(3), "ntp_setup.ver0:AuthenticationMethod": range(3),
    "gsm_diagnostic.ver0:Status": range(6), "gsm_diagnostic.ver0:CSAttachment": range(3), "gsm_diagnostic.ver0:PSStatus": range(5), "gsm_diagnostic.ver1:PSStatus": range(7),
    "single_action_schedule:TYPE": range(1, 6), "security_setup.ver0:SecurityPolicy": range(16), "security_setup.ver0:SecuritySuite": range(16), "security_setup.ver0:KeyID": range(3),
    "security_setup.ver1:SecurityPolicyVer1": None, "security_setup.ver1:CertificateEntity": range(4), "security_setup.ver1:CertificateType": range(4), "security_setup.ver1:SecuritySuite": range(3),
    "security_setup.ver1:KeyID": range(4), "security_setup.ver1:KeyPair": range(3), "security_setup.ver1:CertificateIdentificationType": range(2),
    "profile_generic.ver1:SortMethod": range(1, 7), "disconnect_control:ControlState": range(3), "disconnect_control:ControlMode": (*range(7), *range(129, 135)),
    "push_setup.ver2:TransportServiceType": (*range(9), *range(200, 256)), "push_setup.ver2:MessageType": (0, 1, *range(128, 256)), "push_setup.ver2:PushOperationMethod": range(3),
    "script_table:ServiceId": (1, 2),
}
