/********************************************************************************
 * Copyright (C) 2018-2025 GSI Helmholtzzentrum fuer Schwerionenforschung GmbH  *
 *                                                                              *
 *              This software is distributed under the terms of the             *
 *              GNU Lesser General Public Licence (LGPL) version 3,             *
 *                  copied verbatim in the file "LICENSE"                       *
 ********************************************************************************/

#ifndef FAIR_MQ_VERSION_H

#define FAIRMQ_VERSION "1.10.0"
#define FAIRMQ_VERSION_DEC (1 * 100000) \
                           + (10 * 1000) \
                           + (0 * 10)
#define FAIRMQ_VERSION_MAJOR 1
#define FAIRMQ_VERSION_MINOR 10
#define FAIRMQ_VERSION_PATCH 0
#define FAIRMQ_GIT_VERSION "1.10.0"
#define FAIRMQ_GIT_DATE "today"
#define FAIRMQ_REPO_URL "https://github.com/FairRootGroup/FairMQ"
#define FAIRMQ_LICENSE "LGPL-3.0"
#define FAIRMQ_COPYRIGHT "2012-2025 GSI"
#define FAIRMQ_BUILD_TYPE "Verif"

#endif // FAIR_MQ_VERSION_H
