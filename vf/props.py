"""property -> harness, sources of /repo that are extracted with it, configuration"""
CORE = ['lanelet2_core/src/*']

PROPS = {
    'C01': dict(level='proof', parts=[dict(harness='p01.cpp', srcs=['lanelet2_core/src/Attribute.cpp'], nsrcs=CORE)]),
    'C02': dict(level='proof', parts=[dict(harness='p02.cpp', srcs=['lanelet2_core/src/Lanelet.cpp', 'lanelet2_core/src/Attribute.cpp'], nsrcs=CORE)]),
    'C03': dict(level='proof', parts=[dict(harness='p03.cpp', srcs=['lanelet2_core/src/Lanelet.cpp', 'lanelet2_core/src/Attribute.cpp'], nsrcs=CORE)]),
    'C04': dict(level='proof', parts=[dict(harness='p04.cpp', srcs=['lanelet2_core/src/Attribute.cpp'], nsrcs=CORE)]),
    'C05': dict(level='proof', parts=[dict(harness='p05.cpp', srcs=['lanelet2_core/src/Attribute.cpp', 'lanelet2_traffic_rules/src/GenericTrafficRules.cpp', 'lanelet2_traffic_rules/src/GermanTrafficRules.cpp'], nsrcs=CORE + ['lanelet2_traffic_rules/src/*'])]),
    'C06': dict(level='proof', deadline=300, parts=[dict(harness='p06.cpp', srcs=['lanelet2_core/src/Attribute.cpp', 'lanelet2_traffic_rules/src/GenericTrafficRules.cpp'], nsrcs=CORE + ['lanelet2_traffic_rules/src/*'])]),
    'C07': dict(level='proof', parts=[dict(harness='p07.cpp', srcs=['lanelet2_traffic_rules/src/GenericTrafficRules.cpp', 'lanelet2_traffic_rules/src/GermanTrafficRules.cpp'], nsrcs=CORE + ['lanelet2_traffic_rules/src/*'])]),
    'C11': dict(level='proof', deadline=300, parts=[dict(harness='p11.cpp', srcs=['lanelet2_core/src/Attribute.cpp'], nsrcs=CORE)]),
    'C12': dict(level='proof', deadline=300, parts=[dict(harness='p12.cpp', srcs=['lanelet2_core/src/LaneletSequence.cpp', 'lanelet2_core/src/Lanelet.cpp', 'lanelet2_core/src/Attribute.cpp'], nsrcs=CORE)]),
    'C17': dict(level='proof', deadline=300, parts=[dict(harness='p17.cpp', srcs=['lanelet2_core/src/Attribute.cpp', 'lanelet2_routing/src/LaneletPath.cpp', 'lanelet2_routing/src/Route.cpp'], nsrcs=CORE + ['lanelet2_traffic_rules/src/*', 'lanelet2_routing/src/*'])]),
    'C15': dict(level='proof', deadline=300, parts=[dict(harness='p15.cpp', srcs=['lanelet2_core/src/Attribute.cpp', 'lanelet2_routing/src/RoutingCost.cpp', 'lanelet2_routing/src/RoutingGraph.cpp'], nsrcs=CORE + ['lanelet2_traffic_rules/src/*', 'lanelet2_routing/src/*'])]),
    'C13': dict(level='proof', deadline=300, parts=[dict(harness='p13.cpp', srcs=['lanelet2_projection/src/UTM.cpp', 'lanelet2_projection/src/LocalCartesian.cpp', 'lanelet2_projection/src/Geocentric.cpp'], nsrcs=CORE + ['lanelet2_projection/src/*'])]),
}
