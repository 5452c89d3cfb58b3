# source me: CORE lists the loader's core sources, FLAGS the include paths
R=${REPO:-/repo}
CORE="$R/src/AliasList.c $R/src/CharAllocator.c $R/src/InternalRefService.c $R/src/NamespaceList.c $R/src/Nodeset.c $R/src/NodesetLoader.c $R/src/Parser.c $R/src/PrintfLogger.c $R/src/Sort.c $R/src/Value.c $R/src/nodes/DataTypeNode.c $R/src/nodes/InstanceNode.c $R/src/nodes/Node.c $R/src/nodes/NodeContainer.c"
