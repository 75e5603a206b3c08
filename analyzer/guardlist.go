package main

// guardedFields are changed after construction and only accessed under a lock of their object.
const guardedFields = `
aagent.AAgent.machines
aagent/http.HTTPServer.metrics
aagent/http.HTTPServer.switches
aagent/machine.Machine.backoffTimer
aagent/machine.Machine.choriaStatusFile
aagent/machine.Machine.choriaStatusFreq
aagent/machine.Machine.conn
aagent/machine.Machine.externalMachineQuery
aagent/machine.Machine.facts
aagent/machine.Machine.haHttpServer
aagent/machine.Machine.jsm
aagent/machine.Machine.mainCollective
aagent/machine.Machine.overridesFile
aagent/machine.Machine.signerKey
aagent/machine.Machine.transitionCounter
aagent/machine.Machine.txtfileDir
aagent/watchers/archivewatcher.Watcher.previous
aagent/watchers/archivewatcher.Watcher.previousRunTime
aagent/watchers/ccmmanifestwatcher.Watcher.previous
aagent/watchers/ccmmanifestwatcher.Watcher.previousRunTime
aagent/watchers/execwatcher.Watcher.previous
aagent/watchers/execwatcher.Watcher.previousRunTime
aagent/watchers/expressionwatcher.Watcher.previous
aagent/watchers/filewatcher.Watcher.previous
aagent/watchers/gossipwatcher.Watcher.gossipCancel
aagent/watchers/gossipwatcher.Watcher.lastGossip
aagent/watchers/gossipwatcher.Watcher.lastPayload
aagent/watchers/gossipwatcher.Watcher.lastSubject
aagent/watchers/gossipwatcher.Watcher.nc
aagent/watchers/gossipwatcher.Watcher.runCtx
aagent/watchers/gossipwatcher.Watcher.state
aagent/watchers/httpswitchwatcher.Watcher.httpStarted
aagent/watchers/httpswitchwatcher.Watcher.previous
aagent/watchers/kvwatcher.Watcher.polling
aagent/watchers/kvwatcher.Watcher.previousState
aagent/watchers/kvwatcher.Watcher.sub
aagent/watchers/machineswatcher.Watcher.previous
aagent/watchers/machineswatcher.Watcher.previousManaged
aagent/watchers/machineswatcher.Watcher.previousRunTime
aagent/watchers/metricwatcher.Watcher.httpStarted
aagent/watchers/metricwatcher.Watcher.previousResult
aagent/watchers/metricwatcher.Watcher.watching
aagent/watchers/nagioswatcher.Watcher.history
aagent/watchers/nagioswatcher.Watcher.previous
aagent/watchers/nagioswatcher.Watcher.previousRunTime
aagent/watchers/nagioswatcher.Watcher.watching
aagent/watchers/pluginswatcher.Watcher.previous
aagent/watchers/pluginswatcher.Watcher.previousManaged
aagent/watchers/pluginswatcher.Watcher.previousRunTime
aagent/watchers/schedulewatcher.Watcher.triggered
aagent/watchers/schedulewatcher.scheduleItem.on
aagent/watchers/timerwatcher.Watcher.cancelTimer
aagent/watchers/timerwatcher.Watcher.state
aagent/watchers/watcher.Watcher.deleteCb
aagent/watchers/watcher.Watcher.govCancel
broker/federation.pooledWorker.capacity
broker/federation.pooledWorker.initialized
broker/federation.pooledWorker.workers
broker/network.ChoriaAuth.tokenCache
broker/network.Server.started
choria.Connection.chanSubscriptions
choria.Framework.inProcessConnection
lifecycle/tally.Recorder.observed
message.Message.cachedTransport
message.Message.onPublish
message.Message.shouldCacheTransport
protocol/v1.Reply.MessageBody
protocol/v1.Request.MessageBody
protocol/v1.SecureReply.Hash
protocol/v1.SecureReply.MessageBody
protocol/v1.TransportMessage.Data
protocol/v2.Reply.MessageBody
protocol/v2.Reply.federation
protocol/v2.Reply.seenBy
protocol/v2.Request.MessageBody
protocol/v2.SecureReply.Hash
protocol/v2.SecureReply.MessageBody
protocol/v2.SecureReply.SenderJWT
protocol/v2.SecureReply.Signature
protocol/v2.TransportMessage.Data
providers/agent/mcorpc/aggregate.AverageAggregator.count
providers/agent/mcorpc/aggregate.AverageAggregator.sum
providers/agent/mcorpc/aggregate.ChartAggregator.items
providers/agent/mcorpc/aggregate.SummaryAggregator.items
providers/agent/mcorpc/client.NodeList.hosts
providers/agent/mcorpc/client.RPC.cl
providers/agent/mcorpc/client.Stats.discoveryEnd
providers/agent/mcorpc/client.Stats.discoveryStart
providers/agent/mcorpc/client.Stats.end
providers/agent/mcorpc/client.Stats.publishEnd
providers/agent/mcorpc/client.Stats.publishStart
providers/agent/mcorpc/client.Stats.publishTotal
providers/agent/mcorpc/client.Stats.publishing
providers/agent/mcorpc/client.Stats.start
providers/agent/mcorpc/external.Provider.agents
providers/discovery/broadcast.dOpts.discovered
providers/election/streams.election.cancel
providers/election/streams.election.lastSeq
providers/election/streams.election.notifyNext
providers/election/streams.election.started
providers/election/streams.election.state
providers/governor/streams.jsGMgr.running
puppet.Wrapper.cache
scout/cmd.WatchCommand.longestCheck
scout/cmd.WatchCommand.longestId
scout/cmd.WatchCommand.seen
scout/cmd.WatchCommand.status
scout/updatenotifier.Notifier.should
server.Instance.provisioning
server.Instance.shutdown
server.Instance.stopProcess
server/agents.Manager.agents
server/agents.Manager.subs
srvcache.Cache.cache
submission.DirectorySpool.cancel
submission.DirectorySpool.ctx
submission.DirectorySpool.skipList
submission.DirectorySpool.started
aagent/watchers.plugins
aagent/watchers/nagioswatcher.promStates
aagent/watchers/nagioswatcher.promTimes
aagent/watchers/nagioswatcher.promChecks
aagent/watchers/metricwatcher.metrics
config.mutators
providers/agent/mcorpc/golang/provision.lockedBy
providers/agent/mcorpc/golang/provision.lockedUntil
providers/agent/mcorpc/golang/provision.allowRestart
providers/agent/mcorpc/golang/provision.ecdhPrivate
providers/agent/mcorpc/golang/provision.ecdhPublic
providers/data.plugins
providers/provtarget.resolver
server.additionalAgents
server.additionalAgentProviders
`

// ownedFields belong to objects protected by the lock of the object they are part of.
const ownedFields = `
aagent/watchers/metricwatcher.Metric.machine
aagent/watchers/metricwatcher.Metric.name
aagent/watchers/metricwatcher.Metric.seen
lifecycle/tally.observation.ts
lifecycle/tally.observation.version
lifecycle/tally.observations.hosts
protocol/v1.ReplyEnvelope.federation
protocol/v1.ReplyEnvelope.seenBy
protocol/v1.RequestEnvelope.CallerID
protocol/v1.RequestEnvelope.Collective
protocol/v1.RequestEnvelope.RequestID
protocol/v1.RequestEnvelope.TTL
protocol/v1.RequestEnvelope.federation
protocol/v1.TransportHeaders.Federation
protocol/v1.TransportHeaders.MCollectiveSender
protocol/v1.TransportHeaders.ReplyTo
protocol/v1.TransportHeaders.SeenBy
protocol/v2.ReqEnvelope.Agent
protocol/v2.ReqEnvelope.CallerID
protocol/v2.ReqEnvelope.Collective
protocol/v2.ReqEnvelope.Filter
protocol/v2.ReqEnvelope.RequestID
protocol/v2.ReqEnvelope.TTL
protocol/v2.ReqEnvelope.federation
protocol/v2.ReqEnvelope.seenBy
protocol/v2.TransportHeaders.Federation
protocol/v2.TransportHeaders.ReplyTo
protocol/v2.TransportHeaders.SeenBy
protocol/v2.TransportHeaders.Sender
`
