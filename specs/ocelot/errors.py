class OcelotError(Exception):
    pass

class ZeroProduction(OcelotError):
    pass

class IdenticalVariables(OcelotError):
    pass

class InvalidMultioutputDataset(OcelotError):
    pass

class OutputDirectoryError(OcelotError):
    pass

class ParameterizationError(OcelotError):
    pass

class UnsupportedDistribution(OcelotError):
    pass

class InvalidExchange(OcelotError):
    pass

class MultipleGlobalDatasets(OcelotError):
    pass

class UnparsableFormula(OcelotError):
    pass

class InvalidMarketExchange(OcelotError):
    pass

class InvalidMarket(OcelotError):
    pass

class UnresolvableActivityLink(OcelotError):
    pass

class MissingMandatoryProperty(OcelotError):
    pass

class OverlappingActivities(OcelotError):
    pass

class IdenticalDatasets(OcelotError):
    pass

class OverlappingMarkets(OcelotError):
    pass

class InvalidTransformationFunction(OcelotError):
    pass

class MissingSupplier(OcelotError):
    pass

class MissingAlternativeProducer(OcelotError):
    pass

class MarketGroupError(OcelotError):
    pass
